"""variance, std, skewness, kurtosis"""
from .common import layout, raises
SP = "proadv.statistics.spread"
MO = "proadv.statistics.moment"
BOUNDS = ("variance/std: n <= 10 and 40 fully symbolic, n=1500 with 4 symbolic samples; skewness/kurtosis: n <= 5 (thorough 7) "
          "fully symbolic and n in {12,200,1500} with 2 symbolic samples; integer dtype, views, two-call histories, error cases; "
          "samples not all equal for skewness/kurtosis; |x| <= 1000")


def configs(tier):
    out = []
    for f in ("variance", "std"):
        for n in list(range(1, 11)) + [40]:
            out.append(dict(id="%s-n%d" % (f, n), f=f, n=n))
        out.append(dict(id="%s-long" % f, f=f, n=1500, sym=[0, 1, 700, 1499]))
        out.append(dict(id="%s-empty" % f, f=f, n=0, err=["ValueError"]))
        out.append(dict(id="%s-2d" % f, f=f, n=4, two=True, err=["ValueError"]))
        out.append(dict(id="%s-const" % f, f=f, n=4, same=True))
    for f in ("skewness", "kurtosis"):
        for n in range(2, 6 if tier == "quick" else 8):
            out.append(dict(id="%s-n%d" % (f, n), f=f, n=n))
        out.append(dict(id="%s-n12" % f, f=f, n=12, sym=[3, 11]))
        out.append(dict(id="%s-long" % f, f=f, n=200, sym=[0, 150]))
        out.append(dict(id="%s-n1500" % f, f=f, n=1500, sym=[0, 1030]))
    for f in ("variance", "std", "skewness", "kurtosis"):
        out.append(dict(id="%s-int" % f, f=f, n=4, int=True))
        out.append(dict(id="%s-strided" % f, f=f, n=4, how="strided"))
        out.append(dict(id="%s-reversed" % f, f=f, n=4, how="reversed"))
        out.append(dict(id="%s-hist" % f, f=f, n=3, hist=True))
    out.append(dict(id="kurtosis-list", f="kurtosis", n=4, list=True))
    return out


def run(env, cfg):
    f, n = cfg["f"], cfg["n"]
    mod = SP if f in ("variance", "std") else MO
    if cfg.get("int"):
        x = [env.int("x%d" % i, -1000, 1000) for i in range(n)]
    elif cfg.get("same"):
        x = [env.real("x")] * n
    elif "sym" in cfg:
        x = [env.real("x%d" % i) if i in cfg["sym"] else env.const(((i * 29) % 41 - 20) / 2) for i in range(n)]
    else:
        x = env.vec("x", n)
    a = env.arr(x, dtype="i8") if cfg.get("int") else layout(env, x, cfg.get("how", "plain"))
    if cfg.get("list"):
        a = [env.pyfloat(v) for v in x]
    if "err" in cfg:
        raises(env, cfg["err"], mod, f, env.arr(x, shape=(2, 2)) if cfg.get("two") else a)
        return
    if cfg.get("hist"):
        z = env.vec("z", n)
        env.assume(env.gt(z[0], z[1] + 1))
        env.call(mod, f, env.arr(z))
    m = env.sum(x) / n
    d = [v - m for v in x]
    var = env.sum([v * v for v in d]) / n
    if mod is MO:
        env.assume(env.gt(var, env.const(0.01)))
    snap = None if cfg.get("list") else env.snapshot(a)
    v = env.val(env.call(mod, f, a))
    if snap is not None:
        env.unchanged(a, snap, "input left as it was")
    if f == "variance":
        env.close(v, var, "variance")
    elif f == "std":
        env.close(v, env.sqrt(var), "standard deviation")
    elif f == "skewness":
        env.close(v, env.sum([u * u * u for u in d]) / n / (var * env.sqrt(var)), "skewness")
    else:
        env.close(v, env.sum([u * u * u * u for u in d]) / n / (var * var), "kurtosis")
