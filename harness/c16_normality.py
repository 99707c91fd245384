"""skewtest and kurtotest"""
from .common import raises, layout
NO = "proadv.statistics.distributions.normal"
BOUNDS = ("skewtest n in {8,9,12,30,150,1500}, kurtotest n in {5,6,8,20,150,1500}, 2 symbolic samples among fixed ones (n=8 / n=5: 3), every "
          "alternative, positional, keyword and default; list, integer and strided input; too-short data and invalid alternatives; "
          ""
          "mixed, flat, two-point and skewed fixed samples; data not all equal, skewness not 0, Anscombe-Glynn denominator at least 0.05 from its pole; |x| <= 50")


def configs(tier):
    out = []
    for f, ns in (("skewtest", (8, 9, 12, 30, 150)), ("kurtotest", (5, 6, 8, 20, 150))):
        for n in ns:
            for alt in ("two-sided", "greater", "less", "default"):
                if n > 9 and alt in ("greater", "default") and tier == "quick":
                    continue
                k = 3 if n in (8, 5) and f[0] == "s" else 2
                out.append(dict(id="%s-n%d-%s" % (f, n, alt), f=f, n=n, alt=alt, sym=[0, n - 1, n // 2][:k], weight=n))
        for n in ns:
            for b in ("flat", "two", "skew"):
                for alt in ("two-sided", "less", "greater"):
                    if tier == "quick" and n not in (ns[0], ns[3]) and alt != "two-sided":
                        continue
                    if f == "kurtotest" and b == "two" and n > 100:
                        continue
                    out.append(dict(id="%s-%s-n%d-%s" % (f, b, n, alt), f=f, n=n, alt=alt, sym=[n // 3], shape=b))
        out.append(dict(id="%s-n1500" % f, f=f, n=1500, alt="two-sided", sym=[0, 1030], weight=150))
        n = ns[0]
        out.append(dict(id="%s-kw" % f, f=f, n=n, alt="greater", kw=True, sym=[1]))
        out.append(dict(id="%s-list" % f, f=f, n=n, alt="two-sided", list=True, sym=[1]))
        out.append(dict(id="%s-strided" % f, f=f, n=n, alt="less", how="strided", sym=[1]))
        out.append(dict(id="%s-int" % f, f=f, n=n, alt="two-sided", int=True, sym=[1]))
        out.append(dict(id="%s-hist" % f, f=f, n=n, alt="two-sided", hist=True, sym=[1, 2]))
        for m in (ns[0] - 1, 3):
            out.append(dict(id="%s-short%d" % (f, m), f=f, n=m, alt="two-sided", sym=[0], err=["ValueError"]))
        out.append(dict(id="%s-badalt" % f, f=f, n=n, alt="both", sym=[0], err=["ValueError"]))
        out.append(dict(id="%s-badalt2" % f, f=f, n=n, alt="", sym=[0], err=["ValueError"]))
    return out


def base(i, how="mixed"):
    if how == "flat":
        return ((i * 7) % 11 - 5) / 4
    if how == "two":
        return 3.0 if i % 2 else -2.0
    if how == "skew":
        return [0.0, 0.25, 0.5, 1.0, 1.5, 2.5, 4.0, 7.0, 13.0][(i * 5) % 9]
    return ((i * i * 7 + i * 3) % 23 - 9) / 2 if i % 5 else 12.0 + i % 3


def run(env, cfg):
    f, n = cfg["f"], cfg["n"]
    if cfg.get("int"):
        x = [env.int("x%d" % i, -50, 50) if i in cfg["sym"] else env.const(int(base(i))) for i in range(n)]
        a = env.arr(x, dtype="i8")
    else:
        x = [env.real("x%d" % i, -50, 50) if i in cfg["sym"] else env.const(base(i, cfg.get("shape", "mixed"))) for i in range(n)]
        a = [env.pyfloat(v) for v in x] if cfg.get("list") else layout(env, x, cfg.get("how", "plain"))
    alt = cfg["alt"]
    args, kw = ((), {}) if alt == "default" else ((), dict(alternative=alt)) if cfg.get("kw") else ((alt,), {})
    if alt == "default":
        alt = "two-sided"
    if "err" in cfg:
        raises(env, cfg["err"], NO, f, a, *args, **kw)
        return
    if cfg.get("hist"):
        z = [env.const(base(i + 3) + i) for i in range(n + 2)]
        env.call(NO, f, env.arr(z), "less")
    m = env.sum(x) / n
    d = [v - m for v in x]
    m2 = env.sum([v * v for v in d]) / n
    s = env.sqrt(m2)
    c = env.const
    import math
    if f == "skewtest":
        m3 = env.sum([v * v * v for v in d]) / n
        env.assume(env.not_(env.eq(m3, 0)))
        b2 = (3.0 * (n * n + 27 * n - 70) * (n + 1) * (n + 3)) / ((n - 2.0) * (n + 5) * (n + 7) * (n + 9))
        w2 = -1 + math.sqrt(2 * (b2 - 1))
        delta = 1 / math.sqrt(0.5 * math.log(w2))
        alpha = math.sqrt(2.0 / (w2 - 1))
        y = m3 / (s * s * s) * c(math.sqrt(((n + 1) * (n + 3)) / (6.0 * (n - 2))) / alpha)
        z = c(delta) * env.log(y + env.sqrt(y * y + 1))
    else:
        m4 = env.sum([v * v * v * v for v in d]) / n
        E = 3.0 * (n - 1) / (n + 1)
        var = 24.0 * n * (n - 2) * (n - 3) / ((n + 1) * (n + 1.) * (n + 3) * (n + 5))
        sb1 = 6.0 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt((6.0 * (n + 3) * (n + 5)) / (n * (n - 2.) * (n - 3)))
        A = 6.0 + 8.0 / sb1 * (2.0 / sb1 + math.sqrt(1 + 4.0 / (sb1 ** 2)))
        den = 1 + (m4 / (m2 * m2) - c(E)) * c(math.sqrt(2 / (A - 4.0)) / math.sqrt(var))
        env.assume(env.gt(env.abs(den), c(0.05)))
        if env.decide(env.gt(den, 0)):
            t = env.pow(c(1 - 2.0 / A) / den, 1 / 3.0)
        else:
            t = -env.pow(c(1 - 2.0 / A) / -den, 1 / 3.0)
        z = (c(1 - 2 / (9.0 * A)) - t) / c(math.sqrt(2 / (9.0 * A)))
    snap = None if cfg.get("list") else env.snapshot(a)
    r = env.call(NO, f, a, *args, **kw)
    if snap is not None:
        env.unchanged(a, snap, "input left as it was")
    env.check(isinstance(r, tuple) and len(r) == 2, "(statistic, p-value)")
    env.close(env.val(r[0]), z, "statistic")
    q = z / env.sqrt(c(2))
    p = env.val(r[1])
    if alt == "two-sided":
        e = 1 - env.erf(env.abs(q))
    elif alt == "greater":
        e = (1 - env.erf(q)) / 2
    else:
        e = (1 + env.erf(q)) / 2
    env.close(p, e, "p-value")
    env.require(env.and_(env.ge(p, c(-1e-9)), env.le(p, c(1 + 1e-9))), "p-value is a probability")
