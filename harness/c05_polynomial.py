"""polynomial_replacement"""
from .common import REP, sparse, layout
from .c03_linear import expected as linear
BOUNDS = ("n <= 160 with every sample symbolic for selected spike patterns over all four zones (index 0, 1..10, 11..window-1, >= window) and their "
          "edges; windows 5..120 and default 100, degrees 1..4 and default 2, decimals 0..6 and default; n=400,1500 with 9-10 symbolic samples; "
          "two-call histories; sorted distinct spikes; the fit has more points than coefficients; |x| <= 1000")


def configs(tier):
    out = []
    pats = [(12, []), (1, [0]), (12, [0]), (12, [1]), (12, [5]), (12, [10]), (12, [11]), (12, [0, 1]), (12, [0, 3, 4, 10]), (13, [1, 10, 11, 12]),
            (15, [2, 3, 9, 11, 13]), (30, [0, 7, 10, 11, 12, 20, 29]), (40, [25, 26, 27]), (12, [9, 10]), (12, [10, 11]),
            (14, [0, 10]), (14, [0, 11]), (14, [3, 12])]
    for n, s in pats:
        out.append(dict(id="n%d-%s" % (n, ".".join(map(str, s)) or "none"), n=n, spikes=s))
    # (window, degree) grid
    for n, s, w, g in ((30, [11, 19, 20, 21, 29], 20, 2), (30, [12, 25], 20, 1), (30, [15, 22], 15, 3), (40, [11, 12, 39], 11, 2),
                       (40, [11, 12, 13], 12, 2), (40, [13, 14, 30], 13, 4), (24, [11, 15, 20], 5, 1), (24, [11, 12], 8, 2), (24, [14, 15, 16], 10, 3),
                       (60, [1, 2, 20, 49, 50, 51, 59], 50, 2)):
        out.append(dict(id="w%d-g%d-n%d-%s" % (w, g, n, ".".join(map(str, s))), n=n, spikes=s, w=w, g=g))
        out.append(dict(id="kw-w%d-g%d-n%d-%s" % (w, g, n, ".".join(map(str, s))), n=n, spikes=s, w=w, g=g, kw=True, d=3))
    for n, s in ((110, [99, 100, 101]), (120, [50, 105, 119]), (160, [0, 9, 98, 99, 100, 101, 159])):
        out.append(dict(id="default-n%d-%s" % (n, ".".join(map(str, s))), n=n, spikes=s, weight=5))
    out.append(dict(id="w120", n=150, spikes=[118, 119, 120, 121, 149], w=120, g=2, weight=5))
    out.append(dict(id="n400", n=400, spikes=[5, 6, 150, 151, 250, 399], weight=5, sym=[4, 7, 100, 149, 150, 152, 200, 249, 300, 398]))
    out.append(dict(id="n1500", n=1500, spikes=[5, 700, 701, 1030, 1499], weight=5, sym=[4, 7, 650, 699, 702, 1023, 1024, 1029, 1498]))
    for d in range(0, 7):
        out.append(dict(id="dec%d" % d, n=16, spikes=[2, 12, 15], w=14, g=2, d=d))
    out.append(dict(id="hist", n=20, spikes=[5, 15], hist=True))
    out.append(dict(id="list", n=20, spikes=[5, 15], list=True))
    out.append(dict(id="2d-idx", n=20, spikes=[5, 15], col=True))
    for how in ("strided", "reversed"):
        out.append(dict(id="view-" + how, n=14, spikes=[0, 5, 12], how=how))
    if tier != "quick":
        for n in range(12, 30, 3):
            for w in (6, 12, 14, 20):
                for g in (1, 2, 3):
                    s = [i for i in (1, 5, 11, 13, n - 2, n - 1) if i < n]
                    out.append(dict(id="t-n%d-w%d-g%d" % (n, w, g), n=n, spikes=sorted(set(s)), w=w, g=g))
    return out


def run(env, cfg):
    n, sp = cfg["n"], cfg["spikes"]
    x = sparse(env, "x", n, cfg["sym"]) if cfg.get("sym") else env.vec("x", n)
    a = layout(env, x, cfg.get("how", "plain"))
    ix = list(sp) if cfg.get("list") else env.idx(sp)
    if cfg.get("col"):
        ix = ix.reshape(-1, 1)
    if cfg.get("hist"):
        env.call(REP, "polynomial_replacement", env.arr(env.vec("z", n)), env.idx([0, 3, 12]), 11, 1, 2)
    w, g, d = cfg.get("w"), cfg.get("g"), cfg.get("d")
    names = [(k, v) for k, v in (("window", w), ("degree", g), ("decimals", d)) if v is not None]
    if cfg.get("kw"):
        args, kw = (), dict(names)
    else:
        args, kw = tuple(v for _, v in names), {}
    y = env.vals(env.call(REP, "polynomial_replacement", a, ix, *args, **kw), n)
    w, g, d = w or 100, g or 2, 4 if d is None else d
    e = list(x)
    first = [i for i in sp if 1 <= i <= 10]
    done = False
    for i in sp:
        if i == 0:
            e[0] = env.sum(e) / n
        elif i <= 10:
            if not done:
                e = [env.round(v, d) for v in linear(env, e, first)]
                done = True
        else:
            lo = 0 if i <= w - 1 else i - w
            ks = env.ls_weights([[(k - i) ** p for p in range(g + 1)] for k in range(lo, i)], [1] + [0] * g)
            e[i] = env.sum([c * v for c, v in zip(ks, e[lo:i])])
    for i in range(n):
        env.close(y[i], env.round(e[i], d), "sample %d" % i)
