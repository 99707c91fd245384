"""three-dimensional kernel density detection"""
import math
from .common import layout
MOD = "proadv.filtration.detection.trivariatekernel"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("kernel: n=4..6 with both components fully symbolic, n in {9,20,60} with 2-4 symbolic samples, grids 3..9; detection: n=5,6 fully "
          "symbolic, n in {7,9,20,60} with 1-3 symbolic samples; each configuration covers all inputs that share the density peak and the "
          "cutoff positions of its base point; densities of the library function gaussian_kde are opaque; nonzero half-axes; views; "
          "two-call histories; |x| <= 100")


def lcg(seed, n, scale, bumps):
    """deterministic base values: a cluster with far samples"""
    s, v = seed * 7919 + 13, []

    def nxt():
        nonlocal s
        s = (s * 1103515245 + 12345) % 2147483648
        return s >> 8
    for _ in range(n):
        v.append((nxt() % 41 - 20) / 64 * scale)
    for m, off, k in bumps:
        v[off + nxt() % m] += k * scale
    return v


KER = {(4, 3): [(21, 0.25), (11, 0.25), (8, 0.25), (26, 0.5), (7, 1), (27, 2)], (4, 4): [(21, 0.25), (3, 1), (4, 1), (33, 1), (53, 2), (1,
       0.25)], (4, 5): [(50, 1), (21, 0.25), (2, 1), (4, 1), (12, 1), (24, 1)], (4, 7): [(23, 1), (31, 1), (46, 1), (50, 1), (2, 1), (33,
       1)], (5, 4): [(1, 1), (42, 1), (21, 2), (1, 0.25), (6, 1), (12, 1)], (5, 6): [(30, 1), (4, 2), (6, 2), (21, 2), (28, 2), (19, 0.25)],
       (6, 5): [(10, 2), (1, 2), (6, 2), (22, 2), (28, 2), (9, 1)], (6, 8): [(10, 2), (22, 2), (27, 2), (29, 2), (10, 1), (22, 1)], (9, 5):
       [(6, 2), (1, 2), (5, 2), (25, 2), (42, 2), (47, 2)], (9, 7): [(1, 2), (5, 2), (15, 2), (25, 2), (53, 2), (1, 1)], (20, 6): [(10, 2),
       (34, 2), (20, 0.5), (1, 1), (18, 1), (50, 1)], (20, 9): [(21, 1), (23, 1), (34, 1), (21, 0.5), (23, 0.5), (35, 0.5)], (60, 8): [(58,
       0.25), (23, 1), (13, 2), (16, 2), (23, 2), (0, 0.25)]}
DETS = {(5, 4): [], (5, 6): [], (6, 4): [(26, 2), (29, 2), (2, 1), (29, 1), (2, 2), (8, 2), (10, 2), (39, 2), (57, 2), (16, 1), (4, 2), (9,
       2)], (6, 5): [(20, 2), (46, 2), (33, 2), (19, 2), (57, 2), (33, 1), (4, 2), (8, 2), (10, 2), (61, 2), (78, 2), (5, 1)], (7, 5): [(29,
       2), (57, 2), (10, 2), (16, 2), (26, 2), (5, 2), (70, 2), (15, 2), (17, 2), (32, 2), (42, 2), (62, 2)], (7, 6): [(31, 2), (29, 2),
       (42, 2), (77, 2), (4, 2), (6, 2), (28, 2), (32, 2), (5, 2), (7, 2), (26, 2), (39, 2)], (9, 5): [(22, 2), (37, 2), (2, 2), (12, 2),
       (18, 2), (33, 2), (10, 2), (14, 2), (60, 2), (62, 2), (68, 2), (76, 2)], (9, 7): [(11, 2), (26, 2), (6, 2), (37, 2), (48, 2), (53,
       2), (56, 2), (69, 2), (1, 2), (2, 2), (7, 2), (10, 2)], (20, 5): [(47, 2), (4, 1), (47, 1), (55, 1), (1, 2), (13, 2), (52, 2), (54,
       2), (3, 0.5), (6, 1), (16, 1), (18, 1)], (20, 7): [(1, 2), (11, 2), (44, 2), (50, 2), (51, 2), (77, 2), (6, 1), (14, 1), (17, 1),
       (25, 1), (31, 1), (32, 1)], (20, 9): [(11, 2), (48, 2), (58, 2), (17, 1), (1, 2), (2, 2), (6, 2), (7, 2), (17, 2), (19, 2), (25, 2),
       (26, 2)], (60, 6): [(39, 2), (7, 2), (67, 1), (22, 2), (73, 2), (37, 1)], (60, 8): [(0, 2), (20, 2), (49, 1), (5, 2), (10, 2), (19,
       2)]}


def configs(tier):
    out = []
    for (n, g), sel in KER.items():
        for seed, scale in sel[:3 if tier == "quick" else 9]:
            v = lcg(seed, 2 * n, scale, ((n, 0, 2.5), (n, 0, -2.5), (n, n, 1.5), (n, n, -1.5)))
            c = dict(id="kernel-n%d-g%d-%d-%g" % (n, g, seed, scale), what="k", n=n, grid=g, vals=v, weight=0 if n < 9 else 1)
            c["sym"] = list(range(2 * n)) if n < 9 else [1, n // 2, n + 1, 2 * n - 1] if n < 40 else [n // 2, n + 3]
            out.append(c)
    for (n, g), sel in DETS.items():
        for seed, scale in sel:
            v = lcg(seed, n, scale, ((n, 0, 2.5), (n, 0, -2.5)))
            c = dict(id="det-n%d-g%d-%d-%g" % (n, g, seed, scale), what="d", n=n, grid=g, vals=v, weight=0 if n < 9 else 1)
            c["sym"] = list(range(n)) if n < 7 else [1, n // 2, n - 1] if n < 40 else [n // 2]
            out.append(c)
    d20 = next(c for c in out if c["id"].startswith("det-n20"))
    for how in ("strided", "reversed"):
        out.append(dict(d20, id="det-" + how, how=how))
    out.append(dict(d20, id="det-hist", hist=True))
    for c in out:
        c["cut"] = 1
        c["base"] = {"x%d" % i: c["vals"][i] for i in c["sym"]}
    return out


def deriv(env, c):
    d = [env.const(0)] * len(c)
    for i in range(1, len(c) - 1):
        d[i] = (c[i + 1] - c[i - 1]) / 2
    return d


def cutoff(env, f, pos, at, c, peak, grid):
    """positions of the lower and upper cutoff on a density profile with its peak at index `at`"""
    def flat(i):
        small = env.le(f[i] / f[at], c)
        if not env.follow(small):
            return False
        return env.follow(env.le(env.abs(f[i] - f[i - 1]) * grid / peak, c))
    m = len(f)
    lo = next((i for i in range(at - 1, 0, -1) if flat(i)), 1)
    hi = next((i for i in range(at + 1, m - 1) if flat(i)), m - 1)
    return pos[lo], pos[hi]


def outside(env, u, w, grid):
    """per sample: lies outside the ellipse spanned by the cutoffs"""
    n = len(u)
    su, sw = env.sum(u), env.sum(w)
    S = n * env.sum([a * b for a, b in zip(u, w)]) - su * sw
    D = n * env.sum([a * a for a in u]) - su * su
    env.assume(env.gt(D, 0))
    env.assume(env.not_(env.eq(env.sqrt(D), 0)))
    th = env.atan2(S, D)
    co, si = env.cos(th), env.sin(th)
    ut = [a * co + b * si for a, b in zip(u, w)]
    wt = [b * co - a * si for a, b in zip(u, w)]
    mu, mw = env.sum(ut) / n, env.sum(wt) / n
    c00 = env.sum([(v - mu) * (v - mu) for v in ut]) / (n - 1)
    c11 = env.sum([(v - mw) * (v - mw) for v in wt]) / (n - 1)
    c01 = env.sum([(a - mu) * (b - mw) for a, b in zip(ut, wt)]) / (n - 1)
    env.assume(env.gt(c00, 0))
    c01 = c01 / env.sqrt(c00)
    env.assume(env.gt(c11 - c01 * c01, 0))              # the library needs a positive definite covariance
    ax = []
    for t in (ut, wt):
        lo, hi = env.min(t), env.max(t)
        ax.append([lo + (hi - lo) * env.const(k) / (grid - 1) for k in range(grid)])
    dens = env.kde([ut, wt], [[ax[0][k // grid] for k in range(grid * grid)], [ax[1][k % grid] for k in range(grid * grid)]])
    peak, at = env.peak(dens)
    env.assume(env.gt(peak, 0))
    env.assume(env.gt(dens[at], 0))
    pi, pj = at // grid, at % grid
    fu = [dens[i * grid + pj] for i in range(grid)]
    fw = [dens[pi * grid + j] for j in range(grid)]
    lam = env.const(math.sqrt(2 * math.log(n) / n))
    cut = []
    for f, pos, k, x in ((fu, ax[0], pi, u), (fw, ax[1], pj, w)):
        m = env.sum(x) / n
        c = lam * env.sqrt(env.sum([(v - m) * (v - m) for v in x]) / n)
        cut.append(cutoff(env, f, pos, k, c, peak, grid))
    out = []
    half = [(hi - lo) / 2 for lo, hi in cut]
    mid = [(hi + lo) / 2 for lo, hi in cut]
    for h in half:
        env.assume(env.not_(env.eq(h, 0)))
    for a, b in zip(ut, wt):
        p, q = (a - mid[0]) / half[0], (b - mid[1]) / half[1]
        out.append(env.gt(p * p + q * q, 1))
    return out


def run(env, cfg):
    n, grid = cfg["n"], cfg["grid"]
    x = [env.real("x%d" % i, -100, 100) if i in cfg["sym"] else env.const(v) for i, v in enumerate(cfg["vals"])]
    if cfg["what"] == "k":
        u, w = x[:n], x[n:]
        exp = outside(env, u, w, grid)
        arrs = [layout(env, u, cfg.get("how", "plain")), layout(env, w, "plain")]
        ss = [env.snapshot(a) for a in arrs]
        r = env.call(MOD, "kernel", arrs[0], arrs[1], grid)
        for a, s in zip(arrs, ss):
            env.unchanged(a, s, "input left as it was")
        env.check(isinstance(r, tuple) and len(r) == 2, "indices and estimation")
        got = env.members(r[0], n, "spike indices")
    else:
        d = deriv(env, x)
        e = deriv(env, d)
        three = [outside(env, p, q, grid) for p, q in ((x, d), (x, e), (d, e))]
        exp = [env.or_(*t) for t in zip(*three)]
        arr = layout(env, x, cfg.get("how", "plain"))
        if cfg.get("hist"):
            env.call(MOD, "three_dimensional_kernel", env.arr([env.const(v) for v in (1., 4., -2., 5., 0., 3., -6., 2.)]), 4)
        s = env.snapshot(arr)
        r = env.call(MOD, "three_dimensional_kernel", arr, grid)
        env.unchanged(arr, s, "input left as it was")
        got = env.members(r, n, "spike indices")
        if cfg.get("pipe"):
            return [x], [arr], r, got
    for i in range(n):
        env.iff(got[i], exp[i], "sample %d is reported exactly when it lies outside" % i)
