"""bivariate_kernel: the cosine-series density of binned data"""
import math
from .common import filler
KER = "proadv.kernel.bivariate"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("2..4 fully symbolic points with grids 2..4; 40 and 200 fixed points with up to two symbolic ones and grids 2..8; symbolic bandwidths "
          "(grids 2, 3) and fixed ones; whatever the library root finder returns or raises")


def configs(tier):
    out = []
    for g in (2, 3, 4, 5):
        out.append(dict(id="n2-g%d" % g, n=2, grid=g))
    out.append(dict(id="n3-g2", n=3, grid=2))
    for g in (3, 4):
        for k, e in enumerate(([0, 2, 1, 0], [1, 0, 2, 1])):
            out.append(dict(id="n3-g%d-%d" % (g, k), n=3, grid=g, ends=e))
    for k, e in enumerate(([0, 3, 1, 0], [2, 1, 3, 2], [3, 1, 3, 1])):
        out.append(dict(id="n4-g2-%d" % k, n=4, grid=2, ends=e, weight=2))
    for g in (2, 3):
        for b in ("x", "y") + (("xy",) if g == 2 else ()):
            out.append(dict(id="band-g%d-%s" % (g, b), n=6, grid=g, fixed=True, band=b))
        out.append(dict(id="band-n2-g%d" % g, n=2, grid=g, band="xy", ends=[0, 1, 1, 0]))
    for n in (6, 40, 200):
        for g in (2, 3, 4, 5, 8):
            for ax in (0, 1):
                out.append(dict(id="fixed-n%d-g%d-%d" % (n, g, ax), n=n, grid=g, fixed=True, move=[ax]))
    out.append(dict(id="fixed-both", n=12, grid=4, fixed=True, move=[0, 1]))
    out.append(dict(id="opt-raise", n=3, grid=2, opt="raise", ends=[0, 1, 2, 0]))
    out.append(dict(id="opt-small", n=3, grid=2, opt=1e-6, ends=[0, 2, 2, 0]))
    out.append(dict(id="columns", n=3, grid=3, lay="T", ends=[0, 1, 2, 0]))
    out.append(dict(id="rows-of-more", n=3, grid=3, lay="view", ends=[1, 2, 2, 0]))
    out.append(dict(id="integers", n=3, grid=2, lay="int", ends=[1, 2, 2, 0]))
    out.append(dict(id="hist", n=6, grid=3, fixed=True, move=[0], hist=True))
    for c in out:
        c["fork"] = c["fuzz"] = True
    return out


def density(env, pts, hx, hy, g):
    """bins of width range/g (the maximum belongs to the last one), cosine basis, Gaussian decay"""
    n = len(pts[0])
    lo, hi = [], []
    for p in pts:
        a = b = p[0]
        for v in p[1:]:
            if env.decide(env.lt(v, a)):
                a = v
            elif env.decide(env.gt(v, b)):
                b = v
        lo.append(a)
        hi.append(b)
    L = [h - l for h, l in zip(hi, lo)]
    bins = []
    for d in range(2):
        bins.append([])
        for v in pts[d]:
            t = (v - lo[d]) / L[d]
            b = 0
            while b < g - 1 and env.decide(env.ge(t, env.const((b + 1) / g))):
                b += 1
            bins[d].append(b)
    co = [[math.cos(math.pi * k * (2 * i + 1) / (2 * g)) if k else 1.0 for i in range(g)] for k in range(g)]
    E = [[env.exp(-(env.const(k * k) * env.const(math.pi ** 2) * (h * h) / 2)) for k in range(g)] for h in (hx, hy)]
    a = [[sum(co[k][bins[0][q]] * co[l][bins[1][q]] for q in range(n)) / n * (1 if k == 0 else 2) * (1 if l == 0 else 2)
          for l in range(g)] for k in range(g)]
    out = []
    for j in range(g):
        for i in range(g):
            s = env.const(0)
            for k in range(g):
                for l in range(g):
                    w = a[k][l] * co[k][i] * co[l][j]
                    if abs(w) > 1e-12:
                        s = s + env.const(w) * E[0][k] * E[1][l]
            out.append(s)
    return lo, L, out


def run(env, cfg):
    n, g = cfg["n"], cfg["grid"]
    opt = cfg.get("opt", 0.01)

    def solver(*a, **k):
        if opt == "raise":
            raise ValueError("no bracket")
        return opt
    env.set_opt(brentq=solver, fminbound=lambda *a, **k: 0.05)
    if cfg.get("fixed"):
        pts = [[env.const(filler(i * i + 3 * i) if d else filler(i)) for i in range(n)] for d in range(2)]
        for d in range(2):
            pts[d][0], pts[d][-1] = env.const(-4.0), env.const(8.0)
            pts[d] = [env.const(max(-4.0, min(8.0, filler((i + d) * (i + 2 * d)))) if 0 < i < n - 1 else (-4.0 if i == 0 else 8.0)) for i in range(n)]
        for d in cfg.get("move", []):
            pts[d][n // 2] = env.real("m%d" % d, -4, 8)
    else:
        var = env.int if cfg.get("lay") == "int" else env.real
        pts = [[var("%s%d" % (c, i), -100, 100) for i in range(n)] for c in "xy"]
    if "ends" in cfg:
        # which points carry the extremes
        for d in range(2):
            a, b = cfg["ends"][2 * d:2 * d + 2]
            for i in range(n):
                if i != a:
                    env.assume(env.gt(pts[d][i], pts[d][a]))
                if i != b:
                    env.assume(env.lt(pts[d][i], pts[d][b]))
    hx, hy = (env.real("h" + c, 0, 1) if c in cfg.get("band", "") else env.const(0.125 if c == "x" else 0.25) for c in "xy")
    for turn in range(2 if cfg.get("hist") else 1):
        for d in range(2):
            env.assume(env.gt(env.max(pts[d]) - env.min(pts[d]), env.const(0.0625)))
        lo, L, want = density(env, pts, hx, hy, g)
        lay = cfg.get("lay")
        if lay == "T":
            data = env.arr([v for q in zip(*pts) for v in q], shape=(n, 2)).T
        elif lay == "view":
            data = env.arr(pts[0] + [env.const(500.0)] * n + pts[1], shape=(3, n))[::2]
        else:
            data = env.arr(pts[0] + pts[1], shape=(2, n), dtype="i8" if lay == "int" else "f8")
        snap = env.snapshot(data)
        r = env.call(KER, "bivariate_kernel", data, env.pyfloat(hx), env.pyfloat(hy), g)
        env.check(isinstance(r, tuple) and len(r) == 3, "density and two coordinate grids")
        for a in r:
            env.check(tuple(env.shape(a)) == (g, g), "grid by grid")
        D, X, Y = (env.vals(a) for a in r)
        for j in range(g):
            for i in range(g):
                q = j * g + i
                env.close(X[q], lo[0] + L[0] * i / (g - 1), "x of column %d" % i)
                env.close(Y[q], lo[1] + L[1] * j / (g - 1), "y of row %d" % j)
                if env.decide(env.lt(want[q], 0)):
                    env.close(D[q], env.const(0), "no negative density in cell %d" % q)
                else:
                    env.close(D[q] * L[0] * L[1], want[q], "density of cell %d" % q)
        env.unchanged(data, snap, "data left as they were")
        if cfg.get("hist"):
            pts = [pts[1], pts[0]]
