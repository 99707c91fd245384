"""min, max, median, mode"""
from .common import DES, layout, raises
BOUNDS = ("min/max/median: n <= 8 (thorough 12) with all samples symbolic, as arrays, integer arrays, lists and views; NaN, "
          "string and empty inputs; n in {40,1001,5000} with 4 symbolic samples; mode: n <= 5 (thorough 6) over every tie pattern, floats and "
          "integers; |x| <= 1000")


def configs(tier):
    out = []
    N = 8 if tier == "quick" else 12
    for f in ("min", "max", "median"):
        for n in range(1, N + 1):
            out.append(dict(id="%s-n%d" % (f, n), f=f, n=n))
        out.append(dict(id="%s-int" % f, f=f, n=4, int=True))
        out.append(dict(id="%s-strided" % f, f=f, n=4, how="strided"))
        out.append(dict(id="%s-reversed" % f, f=f, n=3, how="reversed"))
        out.append(dict(id="%s-long" % f, f=f, n=40, long=True))
        out.append(dict(id="%s-long2" % f, f=f, n=1001, long=True))
        out.append(dict(id="%s-long3" % f, f=f, n=5000, long=True))
        out.append(dict(id="%s-empty" % f, f=f, n=0, err=["ValueError"]))
        out.append(dict(id="%s-hist" % f, f=f, n=3, hist=True))
    for f in ("min", "max"):
        for n in (1, 3):
            out.append(dict(id="%s-list-n%d" % (f, n), f=f, n=n, list=True))
        for n in (1, 4, 30):
            for p in sorted(set((0, n // 2, n - 1))):
                out.append(dict(id="%s-nan-n%d-%d" % (f, n, p), f=f, n=n, nan=p, err=["ValueError"]))
        for p in (0, 1, 2):
            out.append(dict(id="%s-str-%d" % (f, p), f=f, n=3, str=p, err=["TypeError"]))
    out.append(dict(id="median-2d", f="median", n=4, two=True, err=["ValueError"]))
    for n in range(1, 6 if tier == "quick" else 7):
        out.append(dict(id="mode-n%d" % n, f="mode", n=n, weight=n))
    out.append(dict(id="mode-int-n3", f="mode", n=3, int=True))
    out.append(dict(id="mode-list-n3", f="mode", n=3, list=True))
    out.append(dict(id="mode-groups", f="mode", n=9, groups=[0, 1, 0, 2, 1, 2, 2, 0, 1], weight=3))
    out.append(dict(id="mode-long", f="mode", n=120, groups=[(i * i) % 3 if i % 40 else 3 for i in range(120)], weight=3))
    out.append(dict(id="mode-groups2", f="mode", n=7, groups=[0, 1, 1, 2, 2, 2, 0], weight=3))
    return out


def run(env, cfg):
    f, n = cfg["f"], cfg["n"]
    if cfg.get("int"):
        x = [env.int("x%d" % i, -1000, 1000) for i in range(n)]
    elif cfg.get("groups"):
        g = env.vec("g", max(cfg["groups"]) + 1)
        x = [g[i] for i in cfg["groups"]]
    elif cfg.get("long"):
        x = [env.real("x%d" % i) if i in (0, 7, 20, n - 1) else env.const(((i * 29) % 41 - 20) / 2 + i / 64) for i in range(n)]
    else:
        x = env.vec("x", n)
    if cfg.get("list"):
        a = [env.pyfloat(v) for v in x]
    elif cfg.get("int"):
        a = env.arr(x, dtype="i8")
    else:
        a = layout(env, x, cfg.get("how", "plain"))
    if "err" in cfg:
        if "nan" in cfg:
            a = env.arr([env.nan if i == cfg["nan"] else v for i, v in enumerate(x)])
        elif "str" in cfg:
            a = [env.string("abc") if i == cfg["str"] else env.pyfloat(v) for i, v in enumerate(x)]
        elif cfg.get("two"):
            a = env.arr(x, shape=(2, 2))
        raises(env, cfg["err"], DES, f, a)
        return
    if cfg.get("hist"):
        z = env.vec("z", n)
        env.call(DES, f, env.arr(z))
    snap = None if cfg.get("list") else env.snapshot(a)
    r = env.call(DES, f, a)
    if snap is not None:
        env.unchanged(a, snap, "input left as it was")
    if f != "mode":
        v = env.val(r)
        env.close(v, {"min": env.min, "max": env.max, "median": env.median}[f](x), f)
        return
    env.check(isinstance(r, tuple) and len(r) == 2, "mode returns (value, frequency)")
    v, k = env.val(r[0]), env.val(r[1])
    cnt = [env.sum([env.ite(env.eq(x[i], x[j]), env.const(1), env.const(0)) for j in range(n)]) for i in range(n)]
    env.require(env.or_(*[env.eq(v, x[i]) for i in range(n)]), "mode is one of the samples")
    for i in range(n):
        env.require(env.implies(env.eq(v, x[i]), env.eq(k, cnt[i])), "frequency is the number of occurrences")
        env.require(env.le(cnt[i], k), "no sample is more frequent")
        env.require(env.implies(env.eq(cnt[i], k), env.le(v, x[i])), "ties go to the smallest value")
