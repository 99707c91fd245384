"""pollution_rate"""
from .common import layout, sparse
MOD, F = "proadv.filtration.detection.pollution", "pollution_rate"
BOUNDS = ("n <= 6 (thorough 8) with every sample, every filtered sample and the factor k >= 0 symbolic; n in {12,60,400,3000} with 4 symbolic "
          "samples; a single filtered level for all samples; strided and reversed data; two-call histories; |x| <= 1000, k <= 100")


def configs(tier):
    out = []
    for n in range(1, 7 if tier == "quick" else 9):
        out.append(dict(id="n%d" % n, n=n))
        out.append(dict(id="level-n%d" % n, n=n, level=True))
        out.append(dict(id="same-n%d" % n, n=n, same=True))
    for k in (0, 1, 3):
        out.append(dict(id="k%d" % k, n=4, k=k))
    for n in (12, 60, 400, 3000):
        out.append(dict(id="long-n%d" % n, n=n, sym=[0, n // 2], fsym=[0, n - 1]))
        out.append(dict(id="longk-n%d" % n, n=n, sym=[n - 1, 3], fsym=[n // 2], k=2))
    for how in ("strided", "reversed", "tail"):
        out.append(dict(id=how, n=4, how=how))
    out.append(dict(id="hist", n=3, hist=True))
    return out


def run(env, cfg):
    n = cfg["n"]
    if "sym" in cfg:
        x = sparse(env, "x", n, cfg["sym"])
        f = [v * env.const(0.5) for v in sparse(env, "f", n, cfg["fsym"])]
    else:
        x = [env.real("x")] * n if cfg.get("same") else env.vec("x", n)
        f = [env.real("f")] * n if cfg.get("level") else env.vec("f", n)
    k = env.const(cfg["k"]) if "k" in cfg else env.real("k", 0, 100)
    a, b = layout(env, x, cfg.get("how", "plain")), layout(env, f, cfg.get("how", "plain"))
    if cfg.get("hist"):
        env.call(MOD, F, env.arr(env.vec("z", 4)), env.arr(env.vec("y", 4)), env.pyfloat(k))
    sa, sb = env.snapshot(a), env.snapshot(b)
    r = env.call(MOD, F, a, env.pyfloat(f[0]) if cfg.get("level") else b, env.pyfloat(k) if cfg.get("k") is None else cfg["k"])
    env.unchanged(a, sa, "input left as it was")
    env.unchanged(b, sb, "filtered series left as it was")
    m = env.sum(x) / n
    t = k * env.sqrt(env.sum([(v - m) * (v - m) for v in x]) / n)
    cnt = env.sum([env.ite(env.or_(env.gt(x[i], f[i] + t), env.lt(x[i], f[i] - t)), env.const(1), env.const(0)) for i in range(n)])
    env.close(env.val(r), cnt * 100 / n, "percentage of samples outside the band")
