"""spherical (ellipsoid) phase-space thresholding"""
import math
from .common import layout, sparse
MOD = "proadv.filtration.detection.spherical"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("n=4..5 (thorough 7) fully symbolic, n in {12,60,150} (thorough 1100) with 1-3 symbolic samples on fixed data at the ends and inside; "
          "views; iteration 0, 1, 2, 3 and 7 with a symbolic earlier mean; two-call histories; nonzero semi-axes; |x| <= 100")


def configs(tier):
    out = []
    for n in range(4, 6 if tier == "quick" else 8):
        out.append(dict(id="n%d" % n, n=n, free=[n // 2], weight=5))
    K = (-60, -9, -2, 0.3, 4, 12, 70)
    for n in (4, 5, 6, 7, 9):
        for j, k in enumerate(K):
            out.append(dict(id="n%d-%d" % (n, j), n=n, base={"x%d" % i: ((i * i * 29 + j * 17 + 5) % 41 - 20) / 4 + (k if i == (j * 2) % n else 0) for i in range(n)}))
    for n in (12, 60):
        for k in K:
            out.append(dict(id="n%d-mid%g" % (n, k), n=n, sym=[n // 2], base={"x%d" % (n // 2): k}))
        for k in (-9, 12, 70):
            out.append(dict(id="n%d-ends%g" % (n, k), n=n, sym=[0, n - 1], base={"x0": k, "x%d" % (n - 1): 3 - k}))
            out.append(dict(id="n%d-run%g" % (n, k), n=n, sym=[1, n // 2, n // 2 + 1], base={"x1": -k, "x%d" % (n // 2): k, "x%d" % (n // 2 + 1): k + 2}))
    out.append(dict(id="n150", n=150, sym=[70], base={"x70": 50}))
    if tier != "quick":
        out.append(dict(id="n1100", n=1100, sym=[1030], base={"x1030": 50}))
    for how in ("strided", "reversed"):
        out.append(dict(id=how, n=12, sym=[4, 5], how=how, base={"x4": 20, "x5": 18}))
    out.append(dict(id="iter2", n=12, sym=[5], it=2, base={"x5": 30}))
    out.append(dict(id="iter2-sym", n=12, sym=[5], it=2, mean=True, base={"x5": 30}))
    for it in (0, 3, 7):
        out.append(dict(id="iter%d" % it, n=12 if it != 7 else 30, sym=[5], it=it, mean=it == 3, base={"x5": 90 - it}))
    out.append(dict(id="hist", n=12, sym=[5], hist=True, base={"x5": -30}))
    for k, c in enumerate(out):
        c["cut"] = 1
        if "sym" in c or "base" in c:
            c.setdefault("it", (1, 2, 1, 3, 1, 6)[k % 6])
        c.setdefault("free", [])
    return out


def grad(x):
    n = len(x)
    return [x[1] - x[0]] + [(x[i + 1] - x[i - 1]) / 2 for i in range(1, n - 1)] + [x[n - 1] - x[n - 2]]


def std(env, x):
    m = env.sum(x) / len(x)
    return env.sqrt(env.sum([(v - m) * (v - m) for v in x]) / len(x))


def run(env, cfg):
    n = cfg["n"]
    x0 = sparse(env, "x", n, cfg["sym"], lo=-100, hi=100) if "sym" in cfg else env.vec("x", n, -100, 100)
    rd = lambda v: env.round(v, 4)
    m = env.sum(x0) / n
    c = [rd(v - m) for v in x0]
    d = grad(c)
    e = grad(d)
    S, D = env.sum([p * q for p, q in zip(c, e)]), env.sum([p * p for p in c])
    env.assume(env.not_(env.eq(env.sqrt(D), 0)))
    th = rd(env.atan2(S, D))
    if env.follow(env.eq(th, 0)):
        X, Y, Z = c, d, e
    else:
        co, si = rd(env.cos(th)), rd(env.sin(th))
        X = [rd(p * co + q * si) for p, q in zip(c, e)]
        Y = [rd(v) for v in d]
        Z = [rd(q * co - p * si) for p, q in zip(c, e)]
    lam = env.const(round(math.sqrt(2 * math.log(n)), 4))
    A, B, C = [rd(lam * std(env, v)) for v in (X, Y, Z)]
    for v in (A, B, C):
        env.assume(env.gt(v, 0))
    exp = []
    for i in range(n):
        x1, y1, z1 = X[i], Y[i], Z[i]
        choose = env.decide if i in cfg["free"] else env.follow
        R = (A * C * y1) * (A * C * y1) + B * B * (C * C * x1 * x1 + A * A * z1 * z1)
        if env.follow(env.eq(env.sqrt(R), 0)):
            exp.append(env.false)           # the centre is never reported
            continue
        k = A * B * C / env.sqrt(R)
        x2, y2 = rd(k * x1), rd(k * y1)
        zr = rd(C * C * (1 - x2 * x2 / (A * A) - y2 * y2 / (B * B)))
        # the third coordinate has the sign of z1 and vanishes with it
        z2 = env.const(0)
        if not env.follow(env.eq(z1, 0)) and choose(env.gt(zr, 0)):
            z2 = rd(env.sqrt(zr))
        if i not in cfg["free"]:
            env.follow(env.gt(z1, 0))
        exp.append(env.lt(x2 * x2 + y2 * y2 + z2 * z2, x1 * x1 + y1 * y1 + z1 * z1))
        if i not in cfg["free"]:
            env.follow(exp[-1])
    arr = layout(env, x0, cfg.get("how", "plain"))
    if cfg.get("hist"):
        env.call(MOD, "spherical_phasespace_thresholding", env.arr([env.const(v) for v in (1., 4., -2., 5., 0., 3., -6., 2.)]), 1, 0)
    s = env.snapshot(arr)
    r = env.call(MOD, "spherical_phasespace_thresholding", arr, cfg.get("it", 1),
                 env.pyfloat(env.real("m", -10, 10)) if cfg.get("mean") else 0)
    env.unchanged(arr, s, "input left as it was")
    got = env.members(r, n, "spike indices")
    if cfg.get("pipe"):
        return [x0], [arr], r, got
    for i in range(n):
        env.iff(got[i], exp[i], "sample %d is reported exactly when it lies outside the ellipsoid" % i)
