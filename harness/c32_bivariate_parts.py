"""gradient, rotation angle and profile cutoffs of the bivariate kernel method"""
from .common import layout, sparse
DET, KER = "proadv.filtration.detection.bivariatekernel", "proadv.kernel.bivariate"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("gradient: all n <= 7 symbolic, n up to 1500 with a few symbolic samples; angle: n <= 8 symbolic, up to 1500 sparse; "
          "cutoffs: profiles of 2..7 samples fully symbolic with symbolic thresholds, density and grid, every peak position; "
          "40 and 256 samples with symbolic samples around the peak and at both ends; density as number and as array")


def configs(tier):
    out = []
    for n in (1, 2, 3, 4, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8):
        out.append(dict(id="grad-n%d" % n, what="grad", n=n))
    for n in (20, 100, 500, 1500):
        for k, pos in enumerate(([0, 1, 2], [n // 2, n // 2 + 1], [n - 1, n - 2, n - 3], [1, n // 3, n - 2])):
            out.append(dict(id="grad-n%d-%d" % (n, k), what="grad", n=n, sym=pos))
    for how in ("strided", "reversed", "tail"):
        out.append(dict(id="grad-" + how, what="grad", n=4, how=how))
    out.append(dict(id="grad-hist", what="grad", n=4, hist=True))
    out.append(dict(id="grad-int", what="gradint", n=5))
    for n in (2, 3, 4, 5, 8):
        out.append(dict(id="rot-n%d" % n, what="rot", n=n))
    for n in (20, 100, 300, 1500):
        out.append(dict(id="rot-n%d" % n, what="rot", n=n, sym=[0, n // 2, n - 1]))
    out.append(dict(id="rot-strided", what="rot", n=4, how="strided"))
    out.append(dict(id="rot-hist", what="rot", n=3, hist=True))
    out.append(dict(id="rot-self", what="rot", n=4, same=True))
    for n in (2, 3, 4, 5, 6) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8):
        for p in range(n):
            out.append(dict(id="cut-n%d-p%d" % (n, p), what="cut", n=n, p=p))
            if n == 5:
                out.append(dict(id="cut-n%d-p%d-arr" % (n, p), what="cut", n=n, p=p, den="arr"))
    for n in (40, 256):
        for p in (1, n // 2, n - 2):
            for k, s in enumerate(((p - 1, p, p + 1), (0, 1, p, p + 1), (p - 1, p, n - 2, n - 1))):
                out.append(dict(id="cut-n%d-p%d-%d" % (n, p, k), what="cut", n=n, p=p, sym=sorted({q % n for q in s}), low=True))
            out.append(dict(id="cut-n%d-p%d-bell" % (n, p), what="cut", n=n, p=p, bell=True))
            out.append(dict(id="cut-n%d-p%d-bellarr" % (n, p), what="cut", n=n, p=p, bell=True, den="arr"))
            out.append(dict(id="cut-n%d-p%d-flat" % (n, p), what="cut", n=n, p=p, flat=True))
    out.append(dict(id="cut-np", what="cut", n=5, p=2, npi=True))
    out.append(dict(id="cut-hist", what="cut", n=4, p=2, hist=True))
    out.append(dict(id="cut-strided", what="cut", n=4, p=1, how="strided"))
    for c in out:
        c["cut"] = 1
    return out


def gradient(env, x):
    n, out = len(x), []
    for i in range(n):
        if i in (0, n - 1):
            out.append(env.const(0))
            continue
        b, f = x[i] - x[i - 1], x[i + 1] - x[i]
        out.append(f if env.decide(env.gt(env.abs(b), env.abs(f))) else b)
    return out


def cutoff(env, f, v, d, c1, c2, p, g):
    n = len(f)

    def ok(i):
        if not env.decide(env.le(f[i] / f[p], c1)):
            return False
        return env.decide(env.le(env.abs((f[i] - f[i - 1]) * g / d[i]), c2))
    lo = next((i for i in range(p - 1, 0, -1) if ok(i)), 1)
    hi = next((i for i in range(p + 1, n - 1) if ok(i)), n - 1)
    return v[lo], v[hi]


def run(env, cfg):
    n, how = cfg["n"], cfg.get("how", "plain")
    if cfg["what"] in ("grad", "gradint"):
        if cfg["what"] == "gradint":
            x = [env.int("x%d" % i, -50, 50) for i in range(n)]
            a = env.arr(x, dtype="i8")
        else:
            x = sparse(env, "x", n, cfg["sym"]) if "sym" in cfg else env.vec("x", n)
            a = layout(env, x, how)
        snap = env.snapshot(a)
        for turn in range(2 if cfg.get("hist") else 1):
            want = gradient(env, x)
            r = env.call(DET, "_derivative", a)
            got = env.vals(r, n)
            for i in range(n):
                env.close(got[i], want[i], "gradient %d" % i)
            env.unchanged(a, snap, "the series left as it was")
            env.not_alias(r, a, "a new array")
            if cfg.get("hist"):
                y = env.real("y", -1000, 1000)
                x = x[:1] + [y] + x[2:]
                a[1] = y
                snap = env.snapshot(a)
        return
    if cfg["what"] == "rot":
        x = sparse(env, "x", n, cfg["sym"], lo=-100, hi=100) if "sym" in cfg else env.vec("x", n, -100, 100)
        y = x if cfg.get("same") else env.vec("y", n, -100, 100) if "sym" not in cfg else sparse(env, "y", n, [1, n - 2], lo=-100, hi=100)
        for turn in range(2 if cfg.get("hist") else 1):
            num = n * env.sum([a * b for a, b in zip(x, y)]) - env.sum(x) * env.sum(y)
            den = n * env.sum([a * a for a in x]) - env.sum(x) * env.sum(x)
            env.assume(env.gt(den, env.const(0.001)))
            ax, ay = layout(env, x, how), layout(env, y, how)
            sx, sy = env.snapshot(ax), env.snapshot(ay)
            th = env.val(env.call(KER, "_rotation", ax, ay))
            env.close(th, env.atan2(num, den), "angle of the regression line")
            env.unchanged(ax, sx, "first series left as it was")
            env.unchanged(ay, sy, "second series left as it was")
            x = [env.real("w%d" % i, -100, 100) for i in range(n)]
        return
    p = cfg["p"]
    if cfg.get("bell"):
        # a fixed bell-shaped profile, thresholds and density decide where it is cut
        f = [env.const(64.0 / (16 + (i - p) ** 2)) for i in range(n)]
        v = [env.const(i * 0.25 - 3) for i in range(n)]
        e = env.real("e", 0, 8)
        v[p // 2], v[-1] = e, e + 1
    elif cfg.get("flat"):
        f = [env.const(2.0)] * n
        v = env.vec("v", n)
    elif "sym" in cfg:
        f = sparse(env, "f", n, cfg["sym"], lo=-10, hi=10)
        f = [f[i] if i in cfg["sym"] else env.const(5.0 + 3 * (i % 2)) for i in range(n)]
        v = env.vec("v", n)
    else:
        f, v = env.vec("f", n, -10, 10), env.vec("v", n)
    env.assume(env.gt(f[p], env.const(0.01)))
    c1, c2 = env.real("c1", 0, 2), env.real("c2", 0, 50)
    if cfg.get("bell") and n > 100:
        env.assume(env.and_(env.gt(c1, env.const(0.375)), env.lt(c1, env.const(0.5))))
        env.assume(env.and_(env.gt(c2, env.const(4.0)), env.lt(c2, env.const(8.0))))
        c1, c2 = (env.const(0.25), c2) if cfg.get("den") else (c1, env.const(1.0))
    elif cfg.get("bell"):
        c1, c2 = (env.const(0.4), c2) if cfg.get("den") else (c1, env.const(0.4))
    if cfg.get("low"):
        env.assume(env.lt(c1 * f[p], env.const(5)))
    g = 8 if cfg.get("bell") and n < 100 else n if cfg.get("bell") else env.int("g", 1, 512)
    if cfg.get("den") == "arr":
        d = env.vec("d", n, 0, 10) if not cfg.get("bell") else [env.const(1 + (i % 3)) for i in range(n)]
        for t in d:
            env.assume(env.gt(t, env.const(0.01)))
        da = layout(env, d, how)
    else:
        t = env.real("d", 0, 10) if not cfg.get("bell") else env.const(4.0)
        env.assume(env.gt(t, env.const(0.01)))
        d, da = [t] * n, env.npfloat(t)
    for turn in range(2 if cfg.get("hist") else 1):
        lo, hi = cutoff(env, f, v, d, c1, c2, p, g)
        fa, va = layout(env, f, how), layout(env, v, how)
        sf, sv = env.snapshot(fa), env.snapshot(va)
        pi = env.idx([p])[0] if cfg.get("npi") else p
        r = env.call(DET, "_cutoff", da, va, env.pyfloat(c1), env.pyfloat(c2), fa, pi, g if isinstance(g, int) else env.pyint(g))
        env.check(isinstance(r, tuple) and len(r) == 2, "two velocities")
        env.close(env.val(r[0]), lo, "lower cutoff")
        env.close(env.val(r[1]), hi, "upper cutoff")
        env.unchanged(fa, sf, "profile left as it was")
        env.unchanged(va, sv, "velocities left as they were")
        c1, c2 = env.const(0.4), env.const(0.4)
