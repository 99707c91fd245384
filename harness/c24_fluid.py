"""kinetic_turbulent_energy and reynolds_stresses"""
from .common import layout, sparse
MOD = "proadv.statistics.signal.fluid"
BOUNDS = ("n <= 8 (thorough 14) with all three components symbolic; n in {60,500,3000} with 2 symbolic samples per component on fixed data; "
          "integer, strided and reversed data; two-call histories; |x| <= 1000")


def configs(tier):
    out = []
    for fn in ("kinetic_turbulent_energy", "reynolds_stresses"):
        for n in range(1, 9 if tier == "quick" else 15):
            out.append(dict(id="%s-n%d" % (fn[:3], n), fn=fn, n=n))
        for n in (60, 500, 3000):
            out.append(dict(id="%s-n%d" % (fn[:3], n), fn=fn, n=n, sym=[[0, n - 1], [n // 2, 0], [n - 1, n // 2]]))
            out.append(dict(id="%s-n%d-u" % (fn[:3], n), fn=fn, n=n, sym=[[1, 2], [1, 3], [2, 3]], off=100))
        for how in ("strided", "reversed", "tail"):
            out.append(dict(id="%s-%s" % (fn[:3], how), fn=fn, n=4, how=how))
        out.append(dict(id="%s-int" % fn[:3], fn=fn, n=4, int=True))
        out.append(dict(id="%s-hist" % fn[:3], fn=fn, n=3, hist=True))
        for s in ((0, 0, 1), (0, 1, 0), (0, 1, 1)):
            out.append(dict(id="%s-same%d%d%d" % ((fn[:3],) + s), fn=fn, n=4, same=s))
    return out


def run(env, cfg):
    n = cfg["n"]
    if cfg.get("int"):
        c = [[env.int("%s%d" % (k, i), -1000, 1000) for i in range(n)] for k in "uvw"]
        arrs = [env.arr(x, dtype="i8") for x in c]
    else:
        if "sym" in cfg:
            c = [sparse(env, k, n, p) for k, p in zip("uvw", cfg["sym"])]
            c = [[v * g + env.const(cfg.get("off", 0) * g) for v in x] for g, x in zip((1, 2, -3), c)]
        else:
            c = [env.vec(k, n) for k in "uvw"]
        arrs = [layout(env, x, cfg.get("how", "plain")) for x in c]
        if "same" in cfg:
            c, arrs = [c[i] for i in cfg["same"]], [arrs[i] for i in cfg["same"]]
    if cfg.get("hist"):
        env.call(MOD, "reynolds_stresses", *[env.arr(env.vec(k, 4)) for k in "abc"])
        env.call(MOD, "kinetic_turbulent_energy", *[env.arr(env.vec(k, 4)) for k in "abc"])
    ss = [env.snapshot(a) for a in arrs]
    r = env.call(MOD, cfg["fn"], *arrs)
    for a, s in zip(arrs, ss):
        env.unchanged(a, s, "input left as it was")
    p = []
    for x in c:
        m = env.sum(x) / n
        p.append([v - m for v in x])

    def cov(i, j):
        return env.sum([a * b for a, b in zip(p[i], p[j])]) / n
    if cfg["fn"] == "kinetic_turbulent_energy":
        env.close(env.val(r), (cov(0, 0) + cov(1, 1) + cov(2, 2)) / 2, "kinetic energy")
    else:
        env.check(isinstance(r, tuple) and len(r) == 6, "six stresses")
        for g, (nm, i, j) in zip(r, (("uu", 0, 0), ("vv", 1, 1), ("ww", 2, 2), ("uv", 0, 1), ("uw", 0, 2), ("vw", 1, 2))):
            env.close(env.val(g), cov(i, j), nm)
