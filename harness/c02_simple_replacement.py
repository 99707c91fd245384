"""last_valid_data, mean_value, median_value: the value put at each spike"""
import itertools
from .common import REP, sparse, layout
BOUNDS = ("every spike subset of a series of n <= 5 (thorough 6) samples, all samples symbolic (index 0 excluded for last_valid_data); "
          "runs and mixed patterns in n in {12,40,300,3000}; spike indices as array or list; float arrays, views, lists, NaN at spikes "
          "(last_valid_data); two-call histories; |x| <= 1000")
FNS = ("last_valid_data", "mean_value", "median_value")


def configs(tier):
    out = []
    N = 5 if tier == "quick" else 6
    for f in FNS:
        for n in range(1, N + 1):
            for k in range(0, n + 1):
                for s in itertools.combinations(range(n), k):
                    if f == "last_valid_data" and 0 in s:
                        continue
                    if f == "median_value" and n == N and 0 < k < n and k != 2:
                        continue
                    out.append(dict(id="%s-n%d-%s" % (f, n, "".join(map(str, s)) or "none"), f=f, n=n, spikes=list(s)))
        out.append(dict(id="%s-n12" % f, f=f, n=12, spikes=[1, 2, 3, 7, 11], sym=None if f[1] != "e" else [0, 5, 7]))
        out.append(dict(id="%s-n40" % f, f=f, n=40, spikes=[3, 4, 5, 6, 20, 38, 39], sym=[2, 3, 19, 37, 39]))
        out.append(dict(id="%s-n300" % f, f=f, n=300, spikes=list(range(30, 60)) + [100, 102, 255, 256, 257, 299],
                        sym=[29, 45, 101, 102, 254, 299]))
        out.append(dict(id="%s-n3000" % f, f=f, n=3000, spikes=[1, 2, 511, 512, 1023, 1024, 1025, 1500, 2047, 2048, 2998, 2999], sym=[0, 510, 1022, 2046, 2997]))
        out.append(dict(id="%s-list" % f, f=f, n=4, spikes=[1, 3], list=True))
        out.append(dict(id="%s-hist" % f, f=f, n=4, spikes=[2, 3], hist=True))
        for how in ("strided", "reversed"):
            out.append(dict(id="%s-%s" % (f, how), f=f, n=4, spikes=[1, 3], how=how))
    out.append(dict(id="last_valid_data-nan", f="last_valid_data", n=6, spikes=[1, 2, 5], nan=True))
    return out


def run(env, cfg):
    f, n, sp = cfg["f"], cfg["n"], cfg["spikes"]
    if cfg.get("sym"):
        x = sparse(env, "x", n, cfg["sym"])
    else:
        x = env.vec("x", n)
    if cfg.get("nan"):
        x = [env.nan if i in sp else v for i, v in enumerate(x)]
    a = layout(env, x, cfg.get("how", "plain"))
    ix = list(sp) if cfg.get("list") else env.idx(sp)
    if cfg.get("hist"):
        env.call(REP, f, env.arr(env.vec("z", n)), env.idx([1]))
    y = env.vals(env.call(REP, f, a, ix), n)
    if f == "mean_value":
        v = env.sum(x) / n
    elif f == "median_value":
        v = env.median(x)
    for i in range(n):
        if i not in sp:
            e = x[i]
        elif f == "last_valid_data":
            j = i
            while j in sp:
                j -= 1
            e = x[j]
        else:
            e = v
        env.close(y[i], e, "sample %d" % i)
