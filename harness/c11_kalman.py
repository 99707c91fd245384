"""kalman_filter: the scalar Kalman recursion"""
from .common import SER, sparse
BOUNDS = ("n <= 4 (thorough 6) with samples, initial state, initial covariance, process and measurement noise all symbolic "
          "(covariances >= 0, measurement noise > 0); n in {30,120} with constant parameters and symbolic samples; parameters "
          "as scalars and as 1x1 arrays; two-call histories; |x| <= 1000")


def configs(tier):
    out = []
    for n in range(1, 5 if tier == "quick" else 7):
        out.append(dict(id="sym-n%d" % n, n=n, form="scalar"))
    for n in (1, 2, 3):
        out.append(dict(id="sym-mat-n%d" % n, n=n, form="mat"))
    for n in (30, 120):
        for j, (p0, q, r) in enumerate(((1.0, 0.25, 4.0), (0.0, 0.5, 1.0), (9.0, 0.0, 2.0), (1.0, 1e-5, 0.01))):
            out.append(dict(id="const%d-n%d" % (j, n), n=n, form="mat" if j % 2 else "scalar", par=[p0, q, r]))
    out.append(dict(id="sparse-n800", n=800, form="mat", par=[1.0, 0.0625, 0.5], sparse=True, weight=20))
    out.append(dict(id="int-params", n=5, form="int", par=[1, 2, 3]))
    out.append(dict(id="history", n=2, form="scalar", hist=True))
    out.append(dict(id="empty", n=0, form="scalar"))
    return out


def model(env, z, x0, p0, q, r, par=None):
    if par:
        # constant parameters: the gains are numbers
        p0, q, r = [float(v) for v in par]
        x, p, out = x0, p0, []
        for v in z:
            pp = p + q
            k = pp / (pp + r)
            p = k * r
            x = env.const(1 - k) * x + env.const(k) * v
            out.append(x)
        return out
    x, p, out = x0, p0, []
    for v in z:
        pp = p + q
        k = pp / (pp + r)
        x = x + k * (v - x)
        p = (1 - k) * pp
        out.append(x)
    return out


def params(env, cfg, tag=""):
    x0 = env.real("x0" + tag)
    if "par" in cfg:
        p0, q, r = [env.const(v) for v in cfg["par"]]
    else:
        p0 = env.real("p0" + tag, 0, 10000)
        q = env.real("q" + tag, 0, 10000)
        r = env.real("r" + tag, 0, 10000)
        env.assume(env.gt(r, 0))
        env.assume(env.gt(r, env.const(0.001)))
    return x0, p0, q, r


def form(env, cfg, ps):
    f = cfg["form"]
    if f == "scalar":
        return [env.pyfloat(p) for p in ps]
    if f == "int":
        return [env.pyfloat(ps[0])] + list(cfg["par"])
    return [env.arr([p], shape=(1, 1)) for p in ps]


def run(env, cfg):
    n = cfg["n"]
    z = sparse(env, "z", n, (0, 1, 2, n // 2, n - 1)) if cfg.get("sparse") else env.vec("z", n)
    ps = params(env, cfg)
    args = form(env, cfg, ps)
    a = env.arr(z)
    if cfg.get("hist"):
        ps2 = params(env, cfg, "b")
        z2 = env.vec("y", n)
        r2 = env.call(SER, "kalman_filter", env.arr(z2), *form(env, cfg, ps2))
    snap = env.snapshot(a)
    r = env.call(SER, "kalman_filter", a, *args)
    env.unchanged(a, snap, "input left as it was")
    env.check(len(r) == n, "one estimate per sample")
    if cfg["form"] == "mat":
        for p, v in zip(args, ps):
            env.close(env.vals(p, 1)[0], v, "parameters left as they were")
    if n == 0:
        return
    for i, (v, e) in enumerate(zip(env.vals(r, n), model(env, z, *ps, par=cfg.get("par")))):
        env.close(v, e, "estimate %d" % i)
    if cfg.get("hist"):
        for i, (v, e) in enumerate(zip(env.vals(r2, n), model(env, z2, *ps2))):
            env.close(v, e, "earlier estimate %d" % i)
