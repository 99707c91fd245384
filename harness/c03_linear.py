"""linear_interpolation"""
import itertools
from .common import REP, sparse, layout
BOUNDS = ("every spike subset of a series of n <= 6 (thorough 7) samples, all samples symbolic; runs of up to 12 spikes in n in {30,200,3000}; "
          "decimals 0..6 and default, positional and keyword; NaN-marked spikes; two-call histories; at least one sample is not a "
          "spike; |x| <= 1000")


def configs(tier):
    out = []
    N = 6 if tier == "quick" else 7
    for n in range(1, N + 1):
        for k in range(0, n):
            for s in itertools.combinations(range(n), k):
                out.append(dict(id="n%d-%s" % (n, "".join(map(str, s)) or "none"), n=n, spikes=list(s)))
    for d in range(0, 7):
        out.append(dict(id="dec%d" % d, n=6, spikes=[0, 2, 3, 5], d=d))
        out.append(dict(id="kw-dec%d" % d, n=5, spikes=[1, 4], d=d, kw=True))
    out.append(dict(id="long-runs", n=30, spikes=[4] + list(range(7, 19)) + [21, 22], sym=[3, 4, 5, 6, 10, 19, 20, 23]))
    out.append(dict(id="n200", n=200, spikes=[0, 1] + list(range(50, 57)) + [120, 122, 124] + [197, 198, 199], sym=[2, 49, 57, 119, 121, 123, 125, 50, 199, 196]))
    out.append(dict(id="n200-all", n=200, spikes=[1, 50, 51, 150], d=3))
    out.append(dict(id="n3000", n=3000, spikes=[0, 255, 256, 257, 1000] + list(range(1400, 1480)) + [2047, 2048, 2999],
                    sym=[1, 254, 258, 999, 1001, 1399, 1480, 2046, 2049, 2998]))
    for s in ([1, 3], [0, 1, 4], [2, 4, 5], [4, 5]):
        out.append(dict(id="nan-" + "".join(map(str, s)), n=6, spikes=s, nan=True))
    out.append(dict(id="hist", n=5, spikes=[2, 3], hist=True))
    for how in ("strided", "reversed"):
        out.append(dict(id="view-" + how, n=5, spikes=[1, 2, 4], how=how))
    return out


def expected(env, x, sp, nan=()):
    """unrounded result"""
    n = len(x)
    sp = set(sp)
    e = list(x)
    i = 0
    while i < n:
        if i not in sp:
            i += 1
            continue
        j = i
        while j + 1 < n and j + 1 in sp:
            j += 1
        if j == n - 1:
            good = [v for k, v in enumerate(x) if k not in nan]
            m = env.sum(good) / len(good)
            e[i:j + 1] = [m] * (j - i + 1)
        elif i == 0:
            e[i:j + 1] = [x[j + 1]] * (j - i + 1)
        else:
            for k in range(i, j + 1):
                t = k - i + 1
                L = j - i + 2
                e[k] = (x[i - 1] * (L - t) + x[j + 1] * t) / L
        i = j + 1
    return e


def run(env, cfg):
    n, sp = cfg["n"], cfg["spikes"]
    x = sparse(env, "x", n, cfg["sym"]) if cfg.get("sym") else env.vec("x", n)
    nan = sp if cfg.get("nan") else ()
    if cfg.get("nan"):
        x = [env.nan if i in sp else v for i, v in enumerate(x)]
    a = layout(env, x, cfg.get("how", "plain"))
    if cfg.get("hist"):
        env.call(REP, "linear_interpolation", env.arr(env.vec("z", n)), env.idx([0, 2]), 2)
    d = cfg.get("d")
    args, kw = ((), {}) if d is None else ((), dict(decimals=d)) if cfg.get("kw") else ((d,), {})
    y = env.vals(env.call(REP, "linear_interpolation", a, env.idx(sp), *args, **kw), n)
    e = expected(env, x, sp, nan)
    for i in range(n):
        env.close(y[i], env.round(e[i], 4 if d is None else d), "sample %d" % i)
