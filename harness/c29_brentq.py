"""brentq: root bracketing for every sequence of function values"""
import math
import operator
from .common import raises
MOD, F = "proadv.statistics.optimize.optimize", "brentq"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("every function value symbolic, bracket ends and both tolerances symbolic, up to 2 iterations explored completely and 3..6 within the region of a base "
          "point; linear, quadratic and cubic functions with symbolic coefficients; default tolerances; both output forms; every error "
          "condition; maxiter >= 1; |x| <= 100, |f| <= 1000, 0.001 <= tolerances <= 100 or the defaults")


FIX = [(-1, 2, 0.25, 0.125), (1, 1.5, 0.0625, 0.0625), (-8, -3, 0.125, 0.03125)]
ENDS = [(-1, 3), (3, -1), (-4, 0.5), (1, -1)]
CURVES = {"cube": (lambda x: x ** 3 - 2, -1, 3), "root": (lambda x: (abs(x - 0.3) ** 0.5) * (1 if x > 0.3 else -1), -2, 1.5), "exp": (lambda x: math.exp(x) - 1.5, -4, 2),
          "steep": (lambda x: math.atan(20 * (x - 0.7)), -1, 4), "step": (lambda x: 1.0 if x > 0.37 else -1.0, 0, 1), "fall": (lambda x: 2 - x * x, 0, 5),
          "flat": (lambda x: (x - 1.1) ** 5, -2, 3), "wave": (lambda x: math.cos(3 * x) - x, -0.5, 2.5)}


def configs(tier):
    out = []
    for full in (True, False):
        out.append(dict(id="values-1-%d" % full, it=1, full=full))
    T = tier != "quick"
    for k, fix in enumerate(FIX):
        out.append(dict(id="fixed-2-%d" % k, it=2, full=k != 1, fix=fix, weight=3))
        for j, e in enumerate(ENDS):
            for it in (3,) if not T else (3, 4):
                out.append(dict(id="ends-%d-%d-%d" % (it, k, j), it=it, full=(k + j) % 3 != 1, fix=fix, ends=e, weight=2))
    for j, e in enumerate(ENDS):
        out.append(dict(id="tol-2-%d" % j, it=2, full=True, fix=FIX[j % 3][:2], ends=e, weight=2))
    for nm, (f, xa, xb) in CURVES.items():
        for it in (3, 4, 5, 6, 8) if not T else range(3, 12):
            for free in (1, 2) if it < 6 else (1,):
                out.append(dict(id="tail-%s-%d-%d" % (nm, it, free), it=it, full=it % 2 == 0, curve=nm, tols=(2 ** -10, 2 ** -11), free=free, weight=free))
        out.append(dict(id="tail-%s-wide" % nm, it=5 if not T else 7, full=True, curve=nm, tols=(0.125, 0.0625), free=1))
        out.append(dict(id="tail-%s-minstep" % nm, it=4, full=True, curve=nm, tols=(0.75, 0.001), free=1))
    for k in (2, 3, 4, 6, 9):
        for form in ("none", "full", "maxiter", "kw"):
            out.append(dict(id="default-%d-%s" % (k, form), it=500, full=form != "none", curve="wave", hit=k, form=form, free=1))
    for k, x0 in enumerate((0.0, 1.0, -3.0)):
        out.append(dict(id="default-width-%d" % k, it=1, full=True, form="one", narrow=x0))
    for form in ("plain", "full"):
        out.append(dict(id="limit-" + form, it=500, limit=True, full=form == "full"))
    out.append(dict(id="limit-7", it=7, limit=True, full=True))
    out.append(dict(id="error-order", err="order"))
    out.append(dict(id="error-sign", err="sign"))
    out.append(dict(id="hist", it=1, full=True, hist=True))
    for k in ("int", "np"):
        out.append(dict(id="kind-" + k, it=1, full=True, kind=k, fix=(-1, 2, 0.25, 0.125)))
    for c in out:
        c["branch_timeout"] = 1.5
        if "curve" in c:
            f, xa, xb = CURVES[c["curve"]]
            xt, rt = c.get("tols", (1.48e-8, 1.48e-8))
            vals = {}

            def val(k, x):
                v = round(f(x) * 64) / 64 or math.copysign(1 / 64, f(x))
                vals[k] = 0.0 if k == c.get("hit") else v
                return vals[k]
            brent(Floats, xa, xb, val, xt, rt, c["it"], bool)
            last = max(vals) - 1
            c["vals"] = [vals[k] for k in range(last + 2)]
            c["symf"] = [last - j for j in range(c["free"])]
            c["fix"] = (xa, xb, xt, rt)
            c["base"] = {"f%d" % k: vals[k] for k in c["symf"]}
    return out


class Floats:
    """just enough to run the reference on plain numbers"""
    eq, gt, ge, lt = (staticmethod(f) for f in (operator.eq, operator.gt, operator.ge, operator.lt))
    abs = staticmethod(abs)
    min = staticmethod(min)
    not_ = staticmethod(operator.not_)

    @staticmethod
    def require(b, label):
        assert b, label
    assume = staticmethod(lambda b: None)


class Fun:
    """the function: its value at every point the reference evaluates is an input"""

    def __init__(self, env, pts, vals, rule=None, kind=None):
        self.env, self.pts, self.vals, self.rule, self.kind, self.seen = env, pts, vals, rule, kind, []

    def __call__(self, x):
        env = self.env
        v = env.val(x)
        if self.rule:
            k = len(self.seen)
            y = self.rule(k, v)
        else:
            k = next((i for i, p in enumerate(self.pts) if env.same(v, p)), None)
            if k is not None:
                env.close(v, self.pts[k], "evaluation point %d" % k)
            y = self.vals[k] if k is not None else env.real("g%d" % len(self.seen), -1000, 1000)
        self.seen.append((v, k))
        return env.npfloat(y) if self.kind == "np" else env.pyfloat(y)


def lemma(env, b, label):
    env.require(b, label)
    env.assume(b)


def brent(env, xa, xb, val, xtol, rtol, maxiter, dec):
    """reference: (outcome, root, its value, opposite point, points, iterations)"""
    pts, vals = [xa, xb], []

    def ev(k):
        vals.append(val(k, pts[k]))
        return vals[k]

    def res(how, root, fr, opp, it):
        return dict(how=how, root=root, froot=fr, opp=opp, pts=pts, vals=vals, it=it)
    a, b = xa, xb
    fa, fb = ev(0), ev(1)
    if dec(env.eq(fa, 0)):
        return res("end", xa, fa, None, 0)
    if dec(env.eq(fb, 0)):
        return res("end", xb, fb, None, 0)
    pa, pb = dec(env.gt(fa, 0)), dec(env.gt(fb, 0))
    if pa == pb:
        return res("error", None, None, None, 0)
    for it in range(maxiter):
        if it == 0 or pa != pb:
            c, fc, pc = a, fa, pa
            old = step = b - a
        if dec(env.lt(env.abs(fc), env.abs(fb))):
            a, b, c = b, c, b
            fa, fb, fc = fb, fc, fb
            pa, pb, pc = pb, pc, pb
        tol = (xtol + rtol * env.abs(b)) / 2
        half = (c - b) / 2
        if dec(env.lt(env.abs(half), tol)):
            return res("done", b, fb, (c, fc), it + 1)
        bis = True
        if dec(env.gt(env.abs(old), tol)) and dec(env.lt(env.abs(fb), env.abs(fa))):
            if a is c:
                lemma(env, env.not_(env.eq(fa - fb, 0)), "distinct points and values")
                new = fb * (b - a) / (fa - fb)
            else:
                for u in (a - b, c - b, fa - fb, fc - fb, fa - fc):
                    lemma(env, env.not_(env.eq(u, 0)), "distinct points and values")
                p, q = (fa - fb) / (a - b), (fc - fb) / (c - b)
                new = fb * (fc * q - fa * p) / (p * q * (fa - fc))
            if dec(env.lt(2 * env.abs(new), env.min([env.abs(old), 3 * env.abs(half) - tol]))):
                bis, old, step = False, step, new
            if not bis:
                lemma(env, env.gt(new * half, 0), "step towards the sign change")
        if bis:
            old = step = half
        a, fa, pa = b, fb, pb
        if dec(env.gt(env.abs(step), tol)):
            b = b + step
        else:
            b = b + tol if dec(env.gt(half, 0)) else b - tol
        lemma(env, env.ge((b - a) * (c - b), 0), "new point inside the bracket")
        pts.append(b)
        fb = ev(len(pts) - 1)
        if it + 1 < maxiter and dec(env.eq(fb, 0)):
            return res("done", b, fb, None, it + 2)
        pb = dec(env.gt(fb, 0)) if it + 1 < maxiter else None
    return res("open", b, fb, None, maxiter)


def outcome(env, cfg, ref, fun, args, kw):
    how = ref["how"]
    if how == "error" or how == "open" and not cfg["full"]:
        raises(env, ["ValueError"], MOD, F, *args, **kw)
        return
    r = env.call(MOD, F, *args, **kw)
    if cfg["full"]:
        env.check(isinstance(r, dict) and sorted(r) == ["converged", "flag", "function_calls", "iterations", "root"], "result dictionary")
        if not cfg.get("limit"):
            env.close(env.val(r["root"]), ref["root"], "root")
        env.check(bool(r["converged"]) == (how != "open"), "converged")
        env.check((r["flag"] == "converged") == (how != "open"), "flag")
        env.check(int(r["iterations"]) == ref["it"], "iterations")
        env.check(int(r["function_calls"]) == len(ref["vals"]) == len(fun.seen), "function calls")
    else:
        env.close(env.val(r), ref["root"], "root")
    if not cfg.get("limit"):
        env.check(len(fun.seen) == len(ref["vals"]) and all(k is not None for _, k in fun.seen), "evaluation points")


def run(env, cfg):
    if cfg.get("err"):
        xa, xb = env.real("xa", -100, 100), env.real("xb", -100, 100)
        fa, fb = env.real("f0", -1000, 1000), env.real("f1", -1000, 1000)
        fun = Fun(env, [xa, xb], [fa, fb])
        if cfg["err"] == "order":
            env.assume(env.ge(xa, xb))
        else:
            env.assume(env.lt(xa, xb))
            env.assume(env.gt(fa * fb, 0))
        raises(env, ["ValueError"], MOD, F, fun, env.pyfloat(xa), env.pyfloat(xb))
        return
    it = cfg["it"]
    if cfg.get("limit"):
        # a function that keeps its sign change strictly inside every bracket; zero tolerances
        u = env.real("u", 0, 100)
        env.assume(env.ge(u, env.const(0.5)))
        xa, xb, xtol, rtol = [env.const(v) for v in (0.0, 1.0, 0.0, 0.0)]
        ref = dict(how="open", root=None, it=it, vals=[None] * (it + 2), pts=[])
        fun = Fun(env, [], [])
        fun.rule = lambda k, x: -u if k != 1 else u
        args = [fun, 0.0, 1.0, 0.0, 0.0]
        outcome(env, cfg, ref, fun, args if it == 500 else args + [it], dict(full_output=True) if cfg["full"] else {})
        return
    xa, xb = env.real("xa", -100, 100), env.real("xb", -100, 100)
    xtol, rtol = env.real("xtol", 0, 100), env.real("rtol", 0, 100)
    if "fix" in cfg:
        xa, xb, xtol, rtol = ([env.const(v) for v in cfg["fix"]] + [xtol, rtol])[:4]
    form = cfg.get("form")
    if "narrow" in cfg:
        w = env.real("w", 0, 2.0 ** -22)
        env.assume(env.gt(w, env.const(2.0 ** -28)))
        xa = env.const(cfg["narrow"])
        xb = xa + w
    if form:
        xtol = rtol = env.const(1.48e-8)
    env.assume(env.gt(xtol, 0))
    env.assume(env.gt(rtol, 0))
    env.assume(env.lt(xa, xb))
    dec = env.follow if form and form != "one" else env.decide

    def val(k, x):
        if k == cfg.get("hit"):
            return env.const(0)
        if k < 2 and "ends" in cfg:
            return env.const(cfg["ends"][k])
        if "vals" in cfg and k < len(cfg["vals"]) and k not in cfg["symf"]:
            return env.const(cfg["vals"][k])
        return env.real("f%d" % k, -1000, 1000)
    ref = brent(env, xa, xb, val, xtol, rtol, it, dec)
    fun = Fun(env, ref["pts"], ref["vals"], kind=cfg.get("kind"))
    if cfg.get("hist"):
        env.call(MOD, F, Fun(env, [], [], rule=lambda k, x: env.const((-1.0, 1.0, 0.0)[min(k, 2)])), -1.0, 1.0)
    if form:
        args, kw = [fun, env.pyfloat(xa), env.pyfloat(xb)], dict(none={}, one=dict(maxiter=1, full_output=True), full=dict(full_output=True), maxiter=dict(maxiter=it, full_output=True),
                   kw=dict(xtol=1.48e-8, rtol=1.48e-8, full_output=True))[form]
    elif cfg.get("kind") == "int":
        args, kw = [fun, -1, 2, 0.25, 0.125, it, cfg["full"]], {}
    else:
        args, kw = [fun] + [env.pyfloat(v) for v in (xa, xb, xtol, rtol)] + [it, cfg["full"]], {}
    outcome(env, cfg, ref, fun, args, kw)
    if ref["how"] == "done" and ref["opp"]:
        c, fc = ref["opp"]
        b, fb = ref["root"], ref["froot"]
        env.require(env.lt(env.abs(c - b), xtol + rtol * env.abs(b)), "bracket within the tolerance")
        env.require(env.or_(env.and_(env.lt(fb, 0), env.gt(fc, 0)), env.and_(env.gt(fb, 0), env.lt(fc, 0))), "opposite signs")
