"""weighted_moving_average"""
from .common import SER, sparse, layout, raises
BOUNDS = ("every (n, period) with n <= 8 (thorough 11), all samples symbolic (float and integer dtype); n in {25,64,130} fully "
          "symbolic; n in {300,600,1200,2000} with 8 symbolic samples; default period; views; error cases; |x| <= 1000")


def configs(tier):
    out = []
    N = 8 if tier == "quick" else 11
    for n in range(1, N + 1):
        for p in range(1, n + 1):
            out.append(dict(id="n%d-p%d" % (n, p), n=n, p=p))
    for n, p in ((25, 24), (64, 20), (130, 33)):
        out.append(dict(id="n%d-p%d" % (n, p), n=n, p=p, weight=20))
    for n, p in ((600, 50), (2000, 7), (300, 150), (1200, 1100)):
        out.append(dict(id="sparse-n%d-p%d" % (n, p), n=n, p=p, sparse=True, weight=30))
    for n in (21, 26):
        out.append(dict(id="default-n%d" % n, n=n, p=20, default=True))
    for how in ("strided", "reversed", "tail"):
        out.append(dict(id="view-" + how, n=6, p=3, how=how))
    for n, p in ((5, 2), (7, 3)):
        out.append(dict(id="int-n%d-p%d" % (n, p), n=n, p=p, int=True))
    out.append(dict(id="history", n=6, p=3, hist=True))
    for n, p in ((3, 0), (3, -1), (4, 5), (20, 21)):
        out.append(dict(id="error-n%d-p%d" % (n, p), n=n, p=p, err=True))
    return out


def expect(env, y, x, p):
    for j in range(len(x) - p):
        env.close(y[j], env.sum([(k + 1) * x[j + k] for k in range(p)]) / (p * (p + 1) // 2), "wma[%d]" % j)


def run(env, cfg):
    n, p = cfg["n"], cfg["p"]
    if cfg.get("err"):
        raises(env, ["ValueError"], SER, "weighted_moving_average", env.arr(env.vec("x", n)), p)
        return
    if cfg.get("sparse"):
        x = sparse(env, "x", n, (0, 1, p - 1, p, p + 1, n // 2, n - 2, n - 1))
    elif cfg.get("int"):
        x = [env.int("x%d" % i, -1000, 1000) for i in range(n)]
    else:
        x = env.vec("x", n)
    a = env.arr(x, dtype="i8") if cfg.get("int") else layout(env, x, cfg.get("how", "plain"))
    if cfg.get("hist"):
        z = env.vec("z", n)
        env.call(SER, "weighted_moving_average", env.arr(z), p)
    s = env.snapshot(a)
    r = env.call(SER, "weighted_moving_average", a) if cfg.get("default") else \
        env.call(SER, "weighted_moving_average", a, p)
    env.unchanged(a, s, "input left as it was")
    if n == p:
        env.check(len(r) == 0, "nothing to average")
        return
    expect(env, env.vals(r, n - p), x, p)
