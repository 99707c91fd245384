"""acceleration_thresholding"""
from .common import layout, raises, sparse
MOD, F = "proadv.filtration.detection.acceleration", "acceleration_thresholding"
BOUNDS = ("n <= 5 (thorough 7) with every sample, the frequency, gravity and both factors symbolic; n in {12,60,400,3000} with 4 symbolic samples; "
          "both tags; every combination of defaulted, positional and keyword parameters; integer, list and strided data; invalid tags; "
          "|x| <= 1000")


def configs(tier):
    out = []
    for tag in (1, 2):
        for n in range(1, 6 if tier == "quick" else 8):
            out.append(dict(id="t%d-n%d" % (tag, n), tag=tag, n=n, par=["gravity", "k_gravity", "k_sigma"]))
        for par in ([], ["gravity"], ["gravity", "k_gravity"]):
            out.append(dict(id="t%d-pos-%d" % (tag, len(par)), tag=tag, n=3, par=par))
        for par in (["k_sigma"], ["k_gravity"], ["gravity", "k_sigma"], ["k_gravity", "k_sigma"]):
            out.append(dict(id="t%d-kw-%s" % (tag, "+".join(par)), tag=tag, n=3, par=par, kw=True))
        for n in (12, 60, 400, 3000):
            out.append(dict(id="t%d-long-n%d" % (tag, n), tag=tag, n=n, par=[], sym=[0, 1, n // 2, n - 1]))
            out.append(dict(id="t%d-longpar-n%d" % (tag, n), tag=tag, n=n, par=["gravity", "k_gravity", "k_sigma"], sym=[0, n // 2, n // 2 + 1, n - 1]))
        out.append(dict(id="t%d-int" % tag, tag=tag, n=3, par=[], int=True))
        out.append(dict(id="t%d-list" % tag, tag=tag, n=3, par=[], list=True))
        out.append(dict(id="t%d-strided" % tag, tag=tag, n=3, par=[], how="strided"))
        out.append(dict(id="t%d-reversed" % tag, tag=tag, n=3, par=[], how="reversed"))
        out.append(dict(id="t%d-hist" % tag, tag=tag, n=3, par=[], hist=True))
        out.append(dict(id="t%d-const" % tag, tag=tag, n=4, par=[], same=True))
    for i, t in enumerate((0, 3, -1)):
        out.append(dict(id="badtag%d" % i, tag=t, n=3, par=[], err=True))
    return out


def run(env, cfg):
    n, tag = cfg["n"], cfg["tag"]
    if cfg.get("int"):
        x = [env.int("x%d" % i, -1000, 1000) for i in range(n)]
        a = env.arr(x, dtype="i8")
    else:
        x = [env.real("x")] * n if cfg.get("same") else sparse(env, "x", n, cfg["sym"]) if "sym" in cfg else env.vec("x", n)
        a = [env.pyfloat(v) for v in x] if cfg.get("list") else layout(env, x, cfg.get("how", "plain"))
    fr = env.real("freq", 0, 10000)
    d = dict(gravity=env.const(980.0), k_gravity=env.const(1.5), k_sigma=env.const(1.0))
    for p in cfg["par"]:
        d[p] = env.real(p, 0, 5000 if p == "gravity" else 100)
    if cfg.get("kw"):
        args, kw = [], {p: env.pyfloat(d[p]) for p in cfg["par"]}
    else:
        args, kw = [env.pyfloat(d[p]) for p in cfg["par"]], {}
    if cfg.get("pipe"):
        d["k_sigma"] = env.const(1.2)
        kw["k_sigma"] = 1.2
    if cfg.get("err"):
        raises(env, ["ValueError"], MOD, F, a, env.pyfloat(fr), tag, *args)
        return
    if cfg.get("hist"):
        env.call(MOD, F, env.arr(env.vec("z", 4)), env.pyfloat(fr), 3 - tag)
    snap = None if cfg.get("list") else env.snapshot(a)
    r = env.call(MOD, F, a, env.pyfloat(fr), tag, *args, **kw)
    if snap is not None:
        env.unchanged(a, snap, "input left as it was")
    m = env.sum(x) / n
    sd = env.sqrt(env.sum([(v - m) * (v - m) for v in x]) / n)
    t = d["k_gravity"] * d["gravity"]
    got = env.members(r, n, "acceleration indices")
    if cfg.get("pipe"):
        return [x], [a], r, got
    for i in range(n):
        acc = (x[i] - x[i - 1]) * fr if i else env.const(0)
        if tag == 1:
            e = env.and_(env.gt(acc, t), env.gt(x[i], m + d["k_sigma"] * sd))
        else:
            e = env.and_(env.lt(acc, -t), env.lt(x[i], m - d["k_sigma"] * sd))
        env.iff(got[i], e, "sample %d is reported exactly when it is an acceleration spike" % i)
