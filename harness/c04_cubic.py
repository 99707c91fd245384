"""cubic_12points_polynomial"""
from .common import REP, sparse, layout, raises
BOUNDS = ("n in {1..8 (all spike subsets up to n=4), 40, 61, 62, 63, 70, 75, 100, 150} with every sample symbolic (up to 150), selected spike patterns "
          "covering both boundary zones, their edges (30/31, n-31/n-30), the interior, runs and neighbouring spikes; n=600 with 12 "
          "symbolic samples; decimals 0..6 and default; NaN-marked spikes; error cases; sorted distinct spike indices with at least 12 "
          "valid samples after every interior spike; |x| <= 1000")


def configs(tier):
    import itertools
    out = []
    for n in range(1, 5):
        for k in range(0, n):
            for s in itertools.combinations(range(n), k):
                out.append(dict(id="n%d-%s" % (n, "".join(map(str, s)) or "none"), n=n, spikes=list(s)))
    pats = [(8, [0, 1, 6, 7]), (40, [0, 5, 6, 39]), (61, [30]), (61, [29, 30, 31]), (62, [30]), (62, [31]), (62, [32]), (63, [31]), (63, [32]), (63, [33]),
            (70, [31]), (70, [39]), (70, [40]), (70, [35]), (70, [30, 31]), (70, [31, 32]), (70, [34, 36]), (70, [35, 36, 37]),
            (70, [25, 33, 44]), (70, [33, 45]), (75, [0, 3, 40, 74]), (75, [38, 40, 42]), (100, [50]), (100, [69]), (100, [70]), (100, [31, 69]),
            (100, [40, 52, 64]), (100, [45, 46, 47, 48, 60]), (100, [20, 28, 35, 60, 80, 99]), (150, [75, 76, 90]), (150, [100])]
    if tier != "quick":
        pats += [(70, [i]) for i in range(28, 43)] + [(70, [i, i + 1]) for i in range(28, 42)] + [(90, list(range(40, 48)))]
    seen = set()
    for n, s in pats:
        i = "n%d-%s" % (n, ".".join(map(str, s)))
        if i in seen:
            continue
        seen.add(i)
        out.append(dict(id="s" + i, n=n, spikes=s))
    out.append(dict(id="n600", n=600, spikes=[2, 100, 101, 300, 301, 302, 450, 590], weight=5,
                    sym=[1, 2, 88, 99, 102, 113, 290, 299, 303, 449, 451, 589]))
    for d in range(0, 7):
        out.append(dict(id="dec%d" % d, n=70, spikes=[3, 35, 68], d=d))
        out.append(dict(id="kw-dec%d" % d, n=70, spikes=[36], d=d, kw=True, sym=[30, 35, 36, 37]))
    for s in ([35], [35, 36], [4, 35, 66]):
        out.append(dict(id="nan-" + ".".join(map(str, s)), n=70, spikes=s, nan=True))
    out.append(dict(id="hist", n=70, spikes=[34], hist=True, sym=[30, 34, 36]))
    out.append(dict(id="list", n=70, spikes=[5, 34], list=True))
    for how in ("strided", "reversed"):
        out.append(dict(id="view-" + how, n=70, spikes=[36], how=how, sym=[35, 36, 37]))
    for n, s in ((10, [10]), (10, [-1]), (70, [3, 70]), (70, [-2, 35]), (5, [9])):
        out.append(dict(id="err-n%d-%s" % (n, ".".join(map(str, s))), n=n, spikes=s, err=True))
    out.append(dict(id="err-2d", n=4, spikes=[1], err=True, two=True))
    return out


def expected(env, x, sp):
    """unrounded result"""
    n = len(x)
    e = list(x)
    w = env.interp_weights(list(range(1, 13)) + list(range(14, 26)), 13, 3)
    left = set(sp)
    for i in sp:
        nxt = [k for k in range(i + 1, n) if k not in left]
        if i <= 30 or i >= n - 30:
            c = ([e[i - 1]] if i > 0 else []) + ([e[nxt[0]]] if nxt else [])
            e[i] = env.round(env.sum(c) / len(c), 4)
        else:
            ys = e[i - 12:i] + [e[k] for k in nxt[:12]]
            e[i] = env.sum([a * b for a, b in zip(w, ys)])
        left.discard(i)
    return e


def run(env, cfg):
    n, sp = cfg["n"], cfg["spikes"]
    x = sparse(env, "x", n, cfg["sym"]) if cfg.get("sym") else env.vec("x", n)
    if cfg.get("nan"):
        x = [env.nan if i in sp else v for i, v in enumerate(x)]
    a = layout(env, x, cfg.get("how", "plain"))
    if cfg.get("err"):
        raises(env, ["ValueError"], REP, "cubic_12points_polynomial", env.arr(x, shape=(2, 2)) if cfg.get("two") else a, env.idx(sp))
        return
    if cfg.get("hist"):
        env.call(REP, "cubic_12points_polynomial", env.arr(env.vec("z", n)), env.idx([2, 38]), 2)
    d = cfg.get("d")
    args, kw = ((), {}) if d is None else ((), dict(decimals=d)) if cfg.get("kw") else ((d,), {})
    y = env.vals(env.call(REP, "cubic_12points_polynomial", a, list(sp) if cfg.get("list") else env.idx(sp), *args, **kw), n)
    e = expected(env, x, sp)
    for i in range(n):
        env.close(y[i], env.round(e[i], 4 if d is None else d), "sample %d" % i)
