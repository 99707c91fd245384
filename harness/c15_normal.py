"""normal distribution: cdf, pdf, sf and their logarithms"""
from .common import layout, raises
NO = "proadv.statistics.distributions.normal"
BOUNDS = ("arrays of length <= 3 with every entry symbolic over [-12, 12], logarithms [-6, 6] (cdf/sf: all branch combinations), shapes (n,), (2,2), "
          "(1,3), (2,1,2); n=40 with 2 symbolic entries; scalars; integer arrays; symbolic mean in [-1000, 1000] and standard deviation in [2^-10, 2^10] "
          "for pdf/log_pdf (log_pdf: points within 30 standard deviations); empty and NaN inputs; two-call histories")


def configs(tier):
    out = []
    for f in ("cdf", "sf", "log_cdf", "log_sf"):
        for n in (1, 2, 3):
            out.append(dict(id="%s-n%d" % (f, n), f=f, n=n, weight=n))
        out.append(dict(id="%s-2x2" % f, f=f, n=4, shape=[2, 2], sym=[0, 3]))
        out.append(dict(id="%s-3d" % f, f=f, n=4, shape=[2, 1, 2], sym=[2]))
        out.append(dict(id="%s-long" % f, f=f, n=40, sym=[0, 33]))
    for f in ("pdf", "log_pdf"):
        for n in (1, 2, 4):
            for par in ("default", "std", "both", "kw", "mean"):
                out.append(dict(id="%s-n%d-%s" % (f, n, par), f=f, n=n, par=par))
        out.append(dict(id="%s-2x2" % f, f=f, n=4, shape=[2, 2], par="both"))
        out.append(dict(id="%s-long" % f, f=f, n=40, sym=[0, 33], par="both"))
    for f in ("cdf", "sf", "log_cdf", "log_sf", "pdf", "log_pdf"):
        out.append(dict(id="%s-scalar" % f, f=f, n=1, scalar=True, par="default"))
        out.append(dict(id="%s-int" % f, f=f, n=3, ints=[-2, 0, 1], par="default"))
        out.append(dict(id="%s-int2" % f, f=f, n=3, ints=[1, 3, -1], par="default"))
        out.append(dict(id="%s-strided" % f, f=f, n=2, how="strided", par="default"))
        out.append(dict(id="%s-empty" % f, f=f, n=0, err=["ValueError"], par="default"))
        for p in (0, 1):
            out.append(dict(id="%s-nan%d" % (f, p), f=f, n=2, nan=p, err=["TypeError"], par="default"))
        out.append(dict(id="%s-hist" % f, f=f, n=1, hist=True, par="default"))
    return out


def run(env, cfg):
    f, n = cfg["f"], cfg["n"]
    if "ints" in cfg:
        x = [env.const(v) for v in cfg["ints"]]
    elif "sym" in cfg:
        x = [env.real("x%d" % i, -6, 6) if i in cfg["sym"] else env.const(((i * 29) % 41 - 20) / 8) for i in range(n)]
    else:
        B = 6 if f.startswith("log") else 12
        x = env.vec("x", n, -B, B)
    if cfg.get("scalar"):
        a = env.pyfloat(x[0])
    elif "ints" in cfg:
        a = env.arr(x, dtype="i8")
    elif "shape" in cfg:
        a = env.arr(x, shape=tuple(cfg["shape"]))
    elif "nan" in cfg:
        a = env.arr([env.nan if i == cfg["nan"] else v for i, v in enumerate(x)])
    else:
        a = layout(env, x, cfg.get("how", "plain"))
    args, kw = [], {}
    sd, mu = env.const(1), env.const(0)
    if "pdf" in f and cfg.get("par", "default") != "default":
        if cfg["par"] != "mean":
            sd = env.real("sd", 2.0 ** -10, 2.0 ** 10)
        if cfg["par"] == "std":
            args = [env.pyfloat(sd)]
        elif cfg["par"] == "mean":
            mu = env.real("mu", -1000, 1000)
            kw = dict(mean=env.pyfloat(mu))
        else:
            mu = env.real("mu", -1000, 1000)
            if cfg["par"] == "both":
                args = [env.pyfloat(sd), env.pyfloat(mu)]
            else:
                kw = dict(mean=env.pyfloat(mu), std=env.pyfloat(sd))
    if f == "log_pdf":
        for v in x:
            env.assume(abs(v - mu) <= 30 * sd)
    if "err" in cfg:
        raises(env, cfg["err"], NO, f, a)
        return
    if cfg.get("hist"):
        env.call(NO, f, env.arr(env.vec("z", 2, -6, 6)))
    snap = None if cfg.get("scalar") else env.snapshot(a)
    r = env.call(NO, f, a, *args, **kw)
    if snap is not None:
        env.unchanged(a, snap, "input left as it was")
        env.not_alias(r, a, "result is a new array")
        env.check(env.shape(r) == env.shape(a), "shape kept")
        y = env.vals(r, n)
    else:
        y = [env.val(r)]
    rt2 = env.sqrt(env.const(2))
    for i in range(n):
        if "pdf" in f:
            t = (x[i] - mu) / sd
            e = env.exp(-t * t / 2) / (sd * env.sqrt(env.const(2) * env.const(3.141592653589793)))
        else:
            c = (1 + env.erf(x[i] / rt2)) / 2
            e = 1 - c if f.endswith("sf") else c
        if f.startswith("log"):
            e = env.log(e)
        env.close(y[i], e, "%s[%d]" % (f, i))
