"""phase-space thresholding (2-d ellipses)"""
import math
from .common import layout, sparse
MOD = "proadv.filtration.detection.phasespace"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("derivatives: n <= 8 fully symbolic and n=300,1500; ellipse parameters: n <= 4 with three independent symbolic series and n in {20,150} with "
          "4 symbolic samples; detection: 5 <= n <= 7 (thorough 8) fully symbolic, n in {12,60,200} with 3 symbolic samples, both signs under each "
          "square root; views; two-call histories; nonzero variances; |x| <= 100")


def configs(tier):
    out = []
    for n in list(range(1, 9)):
        out.append(dict(id="deriv-n%d" % n, what="d", n=n))
    out.append(dict(id="deriv-n40", what="d", n=40, noval=True))
    out.append(dict(id="deriv-n1500", what="d", n=1500, sym=[0, 1, 700, 1023, 1024, 1498, 1499], noval=True))
    out.append(dict(id="deriv-strided", what="d", n=5, how="strided"))
    for n in (2, 3, 4):
        out.append(dict(id="par-n%d" % n, what="p", n=n, weight=3))
    for n in (20, 150):
        out.append(dict(id="par-n%d" % n, what="p", n=n, sym=[0, n // 2], weight=3))
    for n in range(5, 8 if tier == "quick" else 9):
        out.append(dict(id="det-n%d" % n, what="t", n=n, weight=0))
    for n in (12, 60, 200):
        out.append(dict(id="det-n%d" % n, what="t", n=n, sym=[0, n // 2, n - 2], weight=0))
        out.append(dict(id="det-n%d-mid" % n, what="t", n=n, sym=[n // 2, n // 2 + 1], weight=0))
    for how in ("strided", "reversed"):
        out.append(dict(id="det-" + how, what="t", n=12, sym=[5], how=how))
    out.append(dict(id="det-hist", what="t", n=12, sym=[5], hist=True))
    for c in out:
        if c["what"] != "d":
            c["cut"] = 1
    return out


def deriv(env, c):
    n = len(c)
    d = [env.const(0)] * n
    for i in range(1, n - 1):
        d[i] = env.round((c[i + 1] - c[i - 1]) / 2, 4)
    return d


def var(env, x):
    m = env.sum(x) / len(x)
    s = env.sqrt(env.sum([(v - m) * (v - m) for v in x]) / len(x))
    return s * s


def params(env, c, d, e):
    """lambda, q = tan(theta), squared axes of the three ellipses"""
    n = len(c)
    lam2 = 2 * math.log(n)
    vc, vd, ve = var(env, c), var(env, d), var(env, e)
    for v in (vc, vd, ve):
        env.assume(env.gt(v, 0))
    D = env.sum([a * a for a in c])
    env.assume(env.not_(env.eq(env.sqrt(D), 0)))
    q = env.sum([a * b for a, b in zip(c, e)]) / D
    env.assume(env.not_(env.eq(q * q, 1)))
    L = env.const(lam2)
    # cos^2 = 1/(1+q^2), sin^2 = q^2/(1+q^2), cos^4 - sin^4 = (1-q^2)/(1+q^2)
    a3 = L * (vc - ve * q * q) / (1 - q * q)
    b3 = L * (ve - vc * q * q) / (1 - q * q)
    env.assume(env.not_(env.eq(a3, 0)))
    env.assume(env.not_(env.eq(b3, 0)))
    return lam2, vc, vd, ve, q, a3, b3


def run(env, cfg):
    n = cfg["n"]
    if "sym" in cfg:
        x = sparse(env, "x", n, cfg["sym"], lo=-100, hi=100)
    else:
        x = env.vec("x", n, -100, 100)
    if cfg["what"] == "d":
        a = layout(env, x, cfg.get("how", "plain"))
        s = env.snapshot(a)
        r = env.call(MOD, "calculate_derivatives", a)
        env.unchanged(a, s, "input left as it was")
        env.check(isinstance(r, tuple) and len(r) == 2, "two derivatives")
        d = deriv(env, x)
        for i, (g, e) in enumerate(zip(env.vals(r[0], n), d)):
            env.close(g, e, "first derivative %d" % i)
        for i, (g, e) in enumerate(zip(env.vals(r[1], n), deriv(env, d))):
            env.close(g, e, "second derivative %d" % i)
        return
    if cfg["what"] == "p":
        if "sym" in cfg:
            d = sparse(env, "d", n, cfg["sym"][:1], lo=-100, hi=100)
            e = sparse(env, "e", n, cfg["sym"][1:], lo=-100, hi=100)
            e = [e[i] + env.const(((i * i * 5) % 17 - 6) / 4) for i in range(n)]
        else:
            d, e = env.vec("d", n, -100, 100), env.vec("e", n, -100, 100)
    else:
        d = deriv(env, x)
        e = deriv(env, d)
    lam2, vc, vd, ve, q, a3, b3 = params(env, x, d, e)
    if cfg["what"] == "p":
        pa, pb = env.decide(env.gt(a3, 0)), env.decide(env.gt(b3, 0))
        r = env.call(MOD, "calculate_parameters", env.arr(x), env.arr(d), env.arr(e))
        env.check(isinstance(r, tuple) and len(r) == 11, "eleven parameters")
        lam = env.const(math.sqrt(lam2))
        sc, sd, se = env.sqrt(vc), env.sqrt(vd), env.sqrt(ve)
        exp = [sc, sd, se, lam, env.atan(q), lam * sc, lam * sd, lam * sd, lam * se]
        names = "std_c std_dc std_dc2 lambda theta a1 b1 a2 b2".split()
        for nm, g, w in zip(names, r, exp):
            env.close(env.val(g), w, nm)
        for nm, g, w, ok in (("a3", r[9], a3, pa), ("b3", r[10], b3, pb)):
            g = env.val(g)
            if ok:
                env.close(g, env.sqrt(w), nm)
            else:
                env.check(env.isnan(g), nm + " is not real")
        return
    oka, okb = env.gt(a3, 0), env.gt(b3, 0)
    if n >= 8:
        env.assume(oka)
        env.assume(okb)
    third = env.decide(oka) and env.decide(okb)
    a = layout(env, x, cfg.get("how", "plain"))
    if cfg.get("hist"):
        env.call(MOD, "phasespace_thresholding", env.arr([env.const(v) for v in (1., 4., -2., 5., 0., 3., -6., 2.)]))
    s = env.snapshot(a)
    r = env.call(MOD, "phasespace_thresholding", a)
    env.unchanged(a, s, "input left as it was")
    got = env.members(r, n, "spike indices")
    if cfg.get("pipe"):
        return [x], [a], r, got
    L = env.const(lam2)
    for i in range(n):
        r1 = x[i] * x[i] / (L * vc) + d[i] * d[i] / (L * vd)
        r2 = d[i] * d[i] / (L * vd) + e[i] * e[i] / (L * ve)
        out = [env.gt(r1, 1), env.gt(r2, 1)]
        if third:
            u, v = x[i] + e[i] * q, e[i] - x[i] * q
            out.append(env.gt((u * u / a3 + v * v / b3) / (1 + q * q), 1))
        env.iff(got[i], env.or_(*out), "sample %d is reported exactly when it lies outside an ellipse" % i)
