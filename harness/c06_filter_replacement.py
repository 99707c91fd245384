"""replacement by a filtered series: moving averages, SSA, Kalman"""
import itertools
from .common import REP, sparse, layout, raises
from .ssa_model import Model
from .c11_kalman import model as kalman
BOUNDS = ("every spike subset of n <= 4 samples with every window/period and symbolic alpha / Kalman parameters, all samples symbolic; "
          "n in {25,60,200} with the default and large windows and spikes at both ends; SSA with n <= 12 (all of its bounds); spike "
          "indices as array or list; weighted average: spikes before the last `period` samples (the others are a known finding); "
          "|x| <= 1000")
ASSUMES = ["numpy.linalg.eigh returns an orthonormal basis of eigenvectors of the matrix it is given (library function)"]


def subsets(n):
    for k in range(n + 1):
        yield from itertools.combinations(range(n), k)


def name(s):
    return ".".join(map(str, s)) or "none"


def configs(tier):
    out = []
    N = 4 if tier == "quick" else 5
    for n in range(1, N + 1):
        for s in subsets(n):
            for w in range(1, n + 1):
                out.append(dict(id="sma-n%d-w%d-%s" % (n, w, name(s)), f="simple_moving_average", n=n, w=w, spikes=list(s)))
                if w < n and all(i < n - w for i in s):
                    out.append(dict(id="wma-n%d-w%d-%s" % (n, w, name(s)), f="weighted_moving_average", n=n, w=w, spikes=list(s)))
            out.append(dict(id="ema-n%d-%s" % (n, name(s)), f="exponential_moving_average", n=n, alpha=True, spikes=list(s)))
            if n < 4:
                for form in ("scalar", "mat"):
                    out.append(dict(id="kalman-n%d-%s-%s" % (n, name(s), form), f="kalman_filter", n=n, form=form, spikes=list(s)))
    for f, t in (("simple_moving_average", "sma"), ("exponential_moving_average", "ema"), ("weighted_moving_average", "wma")):
        for n, s in ((25, [0, 1, 4]), (60, [0, 7, 19, 20, 21, 39]), (200, [3, 4, 5, 100, 150, 179])):
            if f[0] != "w":
                s = s + [n - 2, n - 1]
            out.append(dict(id="%s-default-n%d" % (t, n), f=f, n=n, spikes=s, default=True))
        out.append(dict(id="%s-big" % t, f=f, n=200, spikes=[0, 10, 79], w=120, avalue=0.75))
        out.append(dict(id="%s-kw" % t, f=f, n=12, spikes=[2, 5, 6], w=5, avalue=0.375, kw=True))
        out.append(dict(id="%s-list" % t, f=f, n=9, spikes=[2, 3], w=3, avalue=0.5, list=True))
        out.append(dict(id="%s-hist" % t, f=f, n=9, spikes=[2, 3], w=3, avalue=0.5, hist=True))
        for how in ("strided", "reversed"):
            out.append(dict(id="%s-%s" % (t, how), f=f, n=8, spikes=[2, 3], w=3, avalue=0.5, how=how))
    for f, n, w in (("simple_moving_average", 5, 0), ("simple_moving_average", 5, 6), ("weighted_moving_average", 5, 0), ("weighted_moving_average", 5, 6)):
        out.append(dict(id="err-%s-%d" % (f, w), f=f, n=n, w=w, spikes=[1], err=True))
    out.append(dict(id="err-sma-default", f="simple_moving_average", n=19, spikes=[1], default=True, err=True))
    for i, v in enumerate((0.0, 1.5, -0.25)):
        out.append(dict(id="err-ema-%d" % i, f="exponential_moving_average", n=5, avalue=v, spikes=[1], err=True))
    for n, par, s in ((30, (1.0, 0.25, 4.0), [0, 3, 4, 29]), (120, (0.0, 0.5, 1.0), [5, 50, 119]), (60, (9.0, 0.001, 15.0), [0, 1, 2, 58])):
        for form in ("scalar", "mat"):
            out.append(dict(id="kalman-n%d-%s" % (n, form), f="kalman_filter", n=n, form=form, par=list(par), spikes=s))
    out.append(dict(id="kalman-hist", f="kalman_filter", n=6, form="mat", par=[1.0, 0.5, 2.0], spikes=[1, 5], hist=True))
    out.append(dict(id="kalman-list", f="kalman_filter", n=6, form="mat", par=[1.0, 0.5, 2.0], spikes=[1, 5], list=True))
    for n, fs, q, s in ((6, 3, "dct", [0, 5]), (6, 3, "hh", [1, 2]), (8, 4, "dct", [0, 3, 7]), (12, 5, "mix", [0, 1, 6, 11]), (7, 4, "rev", [6]), (8, 4, "dct", [])):
        out.append(dict(id="ssa-n%d-%s-%s" % (n, q, name(s)), f="ssa", n=n, fs=fs, fq=1, q=q, spikes=s, noval=True))
    out.append(dict(id="ssa-hist", f="ssa", n=8, fs=4, fq=1, q="dct", spikes=[2], noval=True, hist=True))
    out.append(dict(id="wma-tail", f="weighted_moving_average", n=6, w=2, spikes=[4]))
    return out


def run(env, cfg):
    f, n, sp = cfg["f"], cfg["n"], cfg["spikes"]
    x = env.vec("x", n)
    a = layout(env, x, cfg.get("how", "plain"))
    m = None
    kw = {}
    if f == "exponential_moving_average":
        if cfg.get("alpha"):
            al = env.real("alpha", 0, 1)
            env.assume(env.gt(al, env.const(0.0009765625)))
        else:
            al = env.const(0.2 if cfg.get("default") else cfg["avalue"])
        args = [env.pyfloat(al)]
        kn = "alpha"
    elif f == "kalman_filter":
        par = cfg.get("par")
        x0 = env.real("x0")
        if par:
            ps = [x0] + [env.const(v) for v in par]
        else:
            ps = [x0, env.real("p0", 0, 10000), env.real("q", 0, 10000), env.real("r", 0, 10000)]
            env.assume(env.gt(ps[3], env.const(0.001)))
        args = [env.pyfloat(v) for v in ps] if cfg["form"] == "scalar" else [env.arr([v], shape=(1, 1)) for v in ps]
    elif f == "ssa":
        m = Model(env, n, cfg["fs"], cfg["fq"], cfg["q"])
        args = [cfg["fs"], cfg["fq"]]
    else:
        w = 20 if cfg.get("default") else cfg["w"]
        args = [w]
        kn = "window_size" if f[0] == "s" else "period"
    if cfg.get("default"):
        args = []
    if cfg.get("kw"):
        kw, args = {kn: args[0]}, []
    if cfg.get("err"):
        raises(env, ["ValueError"], REP, f, a, env.idx(sp), *args, **kw)
        return
    if cfg.get("hist"):
        z = env.vec("z", n)
        if m:
            m.install(z)
        env.call(REP, f, env.arr(z), env.idx([1]), *args, **kw)
    if m:
        m.install(x)
    y = env.vals(env.call(REP, f, a, list(sp) if cfg.get("list") else env.idx(sp), *args, **kw), n)
    if f == "simple_moving_average":
        flt = [env.sum(x[max(0, i - w + 1):i + 1]) / min(i + 1, w) for i in range(n)]
    elif f == "weighted_moving_average":
        flt = [env.sum([(k + 1) * x[j + k] for k in range(w)]) / (w * (w + 1) // 2) for j in range(n - w)]
    elif f == "exponential_moving_average":
        flt = [x[0]]
        for v in x[1:]:
            flt.append(al * v + (1 - al) * flt[-1])
    elif f == "kalman_filter":
        flt = kalman(env, x, *ps, par=cfg.get("par"))
    else:
        flt = m.expected()
        if flt is None:
            return
    for i in range(n):
        if i not in sp:
            env.close(y[i], x[i], "sample %d" % i)
        elif m:
            m.compare(y[i], flt[i], i, "spike %d" % i)
        else:
            env.close(y[i], flt[i], "spike %d" % i)
