"""velocity_correlation and the poincare ellipse functions"""
import math
from .common import layout, sparse, filler
MOD, POI = "proadv.filtration.detection.correlation", "proadv.filtration.detection.poincare"
BUDGET = {"quick": 70, "thorough": 600}
BOUNDS = ("ellipse axes: both deviations, the angle's tangent and lambda symbolic; rho: three symbolic points, tangent and axes; detection: n=3..5 with "
          "all three components symbolic, n in {12,60,300} (thorough 1100) with 2-4 symbolic samples on fixed data, real and imaginary axes in every "
          "pair; views; two-call histories; nonzero variances; |x| <= 100")


def configs(tier):
    out = [dict(id="ab", what="ab"), dict(id="ab-zero", what="ab", q0=True), dict(id="rho", what="rho"), dict(id="rho-zero", what="rho", q0=True),
           dict(id="rho-n9", what="rho", n=9), dict(id="ab-const", what="ab", par=True)]
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 7):
        out.append(dict(id="det-n%d" % n, what="d", n=n, real=True))
    out.append(dict(id="det-n4-all", what="d", n=4, weight=2))
    for n in (12, 60, 300) if tier == "quick" else (12, 60, 300, 1100):
        h = n // 2
        for k, (u, v, w) in enumerate((([h], [h], [h]), ([h, 1], [2], [h]), ([2], [h, h + 1], [0]), ([0, n - 1], [0], []), ([0], [1], [h, n - 1]))):
            out.append(dict(id="det-n%d-%d" % (n, k), what="d", n=n, sym=[u, v, w], real=True))
    for k, g in enumerate(((1, 8, 1), (8, 1, 1), (1, 1, 8), (4, 1, 8), (0.25, 1, 4))):
        out.append(dict(id="det-scale%d" % k, what="d", n=20, sym=[[3], [9], [15]], gain=list(g)))
    for how in ("strided", "reversed"):
        out.append(dict(id="det-" + how, what="d", n=12, sym=[[5], [6], [5]], how=how, real=True))
    out.append(dict(id="det-hist", what="d", n=12, sym=[[5], [6], []], hist=True, real=True))
    for c in out:
        c["cut"] = 1
    return out


def var(env, x):
    s = env.sqrt(env.sum([v * v for v in x]) / len(x))
    return s * s


def ellipse(env, r1, r2, q):
    """squared axes from the squared radii and the tangent"""
    f = 1 - q * q
    return (r1 - r2 * q * q) / f, (r2 - r1 * q * q) / f


def run(env, cfg):
    if cfg["what"] in ("ab", "rho"):
        q = env.const(0) if cfg.get("q0") else env.real("q", -20, 20)
        env.assume(env.not_(env.eq(q * q, 1)))
        th = env.atan(q) if not cfg.get("q0") else env.const(0)
    if cfg["what"] == "ab":
        if cfg.get("par"):
            s1, s2, lam = env.const(2.5), env.const(1.25), env.const(3.0)
        else:
            s1, s2, lam = env.real("s1", 0, 100), env.real("s2", 0, 100), env.real("lam", 0, 10)
        for v in (s1, s2, lam):
            env.assume(env.gt(v, env.const(0.001)))
        A, B = ellipse(env, lam * lam * s1 * s1, lam * lam * s2 * s2, q)
        env.assume(env.not_(env.eq(A, 0)))
        env.assume(env.not_(env.eq(B, 0)))
        ok = env.decide(env.gt(A, 0)) and env.decide(env.gt(B, 0))
        r = env.call(POI, "calculate_ab", env.pyfloat(s1), env.pyfloat(s2), env.pyfloat(th), env.pyfloat(lam))
        env.check(isinstance(r, tuple) and len(r) == 2, "two axes")
        env.close(env.val(r[0]), env.sqrt(A) if ok else env.const(1e10), "first axis")
        env.close(env.val(r[1]), env.sqrt(B) if ok else env.const(1e10), "second axis")
        return
    if cfg["what"] == "rho":
        n = cfg.get("n", 3)
        x, y = env.vec("x", n, -100, 100), env.vec("y", n, -100, 100)
        a, b = env.real("a", 0, 100), env.real("b", 0, 100)
        env.assume(env.gt(a, env.const(0.01)))
        env.assume(env.gt(b, env.const(0.01)))
        g = env.vals(env.call(POI, "calculate_rho", env.arr(x), env.arr(y), env.pyfloat(th), env.pyfloat(a), env.pyfloat(b)), n)
        for i in range(n):
            u, v = x[i] + y[i] * q, y[i] - x[i] * q
            env.close(g[i], (u * u / (a * a) + v * v / (b * b)) / (1 + q * q), "rho %d" % i)
        return
    n = cfg["n"]
    raw = []
    for k, nm in enumerate("uvw"):
        if "sym" in cfg:
            x = sparse(env, nm, n, cfg["sym"][k], lo=-100, hi=100)
            x = [x[i] + env.const([0, 3 + filler(i * i + 3 * i), -1 + filler(5 * i * i + 1) / 2][k]) for i in range(n)]
            g = cfg.get("gain", [1, 1, 1])[k]
            x = [v * env.const(g) for v in x]
        else:
            x = env.vec(nm, n, -100, 100)
        raw.append(x)
    dm = []
    for x in raw:
        m = env.sum(x) / n
        dm.append([v - m for v in x])
    L = env.const(2 * math.log(n))
    vs = [var(env, x) for x in dm]
    for v in vs:
        env.assume(env.gt(v, 0))
    ell = []
    for i, j in ((0, 1), (0, 2), (1, 2)):
        q = env.sum([a * b for a, b in zip(dm[i], dm[j])]) / env.sum([a * a for a in dm[i]])
        env.assume(env.not_(env.eq(q * q, 1)))
        A, B = ellipse(env, L * vs[i], L * vs[j], q)
        env.assume(env.not_(env.eq(A, 0)))
        env.assume(env.not_(env.eq(B, 0)))
        if cfg.get("real"):
            env.assume(env.gt(A, 0))
            env.assume(env.gt(B, 0))
            ok = True
        else:
            ok = env.decide(env.gt(A, 0)) and env.decide(env.gt(B, 0))
        if ok:
            ell.append((i, j, q, A, B))
    arrs = [layout(env, x, cfg.get("how", "plain")) for x in raw]
    if cfg.get("hist"):
        z = [env.arr([env.const(filler(i * k + i)) for i in range(8)]) for k in (1, 3, 6)]
        env.call(MOD, "velocity_correlation", *z)
    ss = [env.snapshot(a) for a in arrs]
    r = env.call(MOD, "velocity_correlation", *arrs)
    for a, s in zip(arrs, ss):
        env.unchanged(a, s, "input left as it was")
    got = env.members(r, n, "spike indices")
    if cfg.get("pipe"):
        return raw, arrs, r, got
    for t in range(n):
        out = []
        for i, j, q, A, B in ell:
            u, v = dm[i][t] + dm[j][t] * q, dm[j][t] - dm[i][t] * q
            out.append(env.gt((u * u / A + v * v / B) / (1 + q * q), 1))
        env.iff(got[t], env.or_(*out) if out else env.false, "sample %d is reported exactly when it lies outside an ellipse" % t)
