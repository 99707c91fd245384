"""every replacement method: only the spikes change, nothing handed in is modified, the result is a new array"""
import itertools
from .common import REP, layout
from .ssa_model import Model
BOUNDS = ("all ten replacement methods; every spike subset of n=4 samples (SSA n=6, cubic/polynomial also n in {40,70,110}), symbolic samples, "
          "spike-free input, read-only-style checks on data, spike indices and parameters; float arrays and views; |x| <= 1000")
ASSUMES = ["numpy.linalg.eigh returns an orthonormal basis of eigenvectors of the matrix it is given (library function)"]
ROUND = ("linear_interpolation", "cubic_12points_polynomial", "polynomial_replacement")
FNS = ("last_valid_data", "mean_value", "median_value", "simple_moving_average", "exponential_moving_average",
       "weighted_moving_average", "ssa", "kalman_filter") + ROUND


def configs(tier):
    out = []
    for f in FNS:
        n = 6 if f == "ssa" else 4 if tier == "quick" else 5
        for k in range(n + 1):
            for s in itertools.combinations(range(n), k):
                if f in ROUND and k == n:
                    continue
                if f == "weighted_moving_average" and any(i >= n - 1 for i in s):
                    continue
                if f == "ssa" and tier == "quick" and k not in (0, 1, n) and s not in ((0, 3), (1, 2, 5)):
                    continue
                out.append(dict(id="%s-n%d-%s" % (f, n, "".join(map(str, s)) or "none"), f=f, n=n, spikes=list(s)))
        for how in ("strided", "reversed", "tail"):
            out.append(dict(id="%s-%s" % (f, how), f=f, n=6, spikes=[1, 4] if f[0] != "w" else [1, 2], how=how))
        if f != "ssa":
            out.append(dict(id="%s-n60" % f, f=f, n=60, spikes=[0, 1, 5, 31, 32, 33] + ([50] if f[0] != "w" else []), big=True))
            out.append(dict(id="%s-n60-none" % f, f=f, n=60, spikes=[], big=True))
    for f in ROUND[1:]:
        out.append(dict(id="%s-n110" % f, f=f, n=110, spikes=[3, 40, 41, 70, 100, 105], big=True))
        out.append(dict(id="%s-n70" % f, f=f, n=70, spikes=[33, 35], big=True))
    for f in ROUND:
        for d in (0, 2, 6):
            out.append(dict(id="%s-dec%d" % (f, d), f=f, n=12, spikes=[2, 3, 11], d=d))
    for c in out:
        if c["f"] == "ssa":
            c["noval"] = True
    return out


def run(env, cfg):
    f, n, sp = cfg["f"], cfg["n"], cfg["spikes"]
    x = env.vec("x", n)
    a = layout(env, x, cfg.get("how", "plain"))
    ix = env.idx(sp)
    m = None
    args, kw, keep = [], {}, []
    if f in ("simple_moving_average", "weighted_moving_average"):
        args = [] if cfg.get("big") else [2 if f[0] == "s" else 1]
    elif f == "exponential_moving_average":
        args = [] if cfg.get("big") else [0.5]
    elif f == "ssa":
        m = Model(env, n, 3, 1, "dct")
        m.install(x)
        args = [3, 1]
    elif f == "kalman_filter":
        args = [env.arr([env.const(v)], shape=(1, 1)) for v in (2.0, 1.0, 0.5, 1.5)]
        keep = [(v, env.snapshot(v)) for v in args]
    elif "d" in cfg:
        kw = dict(decimals=cfg["d"])
    sa, si = env.snapshot(a), env.snapshot(ix)
    r = env.call(REP, f, a, ix, *args, **kw)
    env.unchanged(a, sa, "velocities left as they were")
    env.unchanged(ix, si, "spike indices left as they were")
    for v, s in keep:
        env.unchanged(v, s, "parameters left as they were")
    env.check(r is not a, "the result is a new array")
    env.not_alias(r, a, "the result does not share memory with the input")
    env.check(env.shape(r) == (n,), "the result has the shape of the input")
    env.check(env.kind(r) == "f", "the result is a float array")
    y = env.vals(r, n)
    for i in range(n):
        if i not in sp:
            e = env.round(x[i], cfg.get("d", 4)) if f in ROUND else x[i]
            env.close(y[i], e, "sample %d is not a spike and keeps its value" % i)
        else:
            env.check(not env.isnan(y[i]), "spike %d gets a number" % i)
