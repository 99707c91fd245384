"""frequency transformations of zero-pole-gain systems"""
from .common import raises, finite
MOD = "proadv.statistics.signal.butter"
BUDGET = {"quick": 60, "thorough": 600}
FN = ("low_to_low", "low_to_high", "low_to_band", "low_to_stop", "bilinear")
BOUNDS = ("up to 3 (thorough 4) symbolic poles and as many symbolic zeros, real and in conjugate pairs, gain, frequencies and bandwidth symbolic, as "
          "arrays, lists and scalars, defaults and keywords; the evaluation point is a symbolic real number; |poles|, |zeros| <= 10 and nonzero "
          "where they are inverted, 2^-6 <= frequencies <= 1000")


def configs(tier):
    out = []
    N = 3 if tier == "quick" else 4
    for f in FN:
        for np_ in range(1, N + 1):
            for nz in range(0, np_ + 1):
                if tier == "quick" and np_ == 3 and nz == 2:
                    continue
                out.append(dict(id="%s-z%d-p%d" % (f, nz, np_), f=f, nz=nz, np=np_, weight=np_ + nz))
        for np_, nz in ((2, 0), (2, 2), (3, 0), (3, 2)):
            if f in ("low_to_band", "low_to_stop") and tier == "quick" and np_ + nz > 3:
                continue
            out.append(dict(id="%s-cplx-z%d-p%d" % (f, nz, np_), f=f, nz=nz, np=np_, cplx=True, weight=np_ + nz + 2))
        out.append(dict(id="%s-default" % f, f=f, nz=0, np=2, default=True))
        out.append(dict(id="%s-kw" % f, f=f, nz=1, np=1, kw=True))
        out.append(dict(id="%s-list" % f, f=f, nz=0, np=2, list=True))
        out.append(dict(id="%s-scalar" % f, f=f, nz=1, np=1, scalar=True))
        out.append(dict(id="%s-hist" % f, f=f, nz=1, np=1, hist=True))
        out.append(dict(id="%s-int" % f, f=f, nz=0, np=2, int=True))
        for nz, np_ in ((1, 0), (2, 1), (3, 1)):
            out.append(dict(id="%s-improper-z%d-p%d" % (f, nz, np_), f=f, nz=nz, np=np_, err=True))
    for c in out:
        if c["f"] in ("low_to_band", "low_to_stop"):
            c["noval"] = True           # which of the two square roots comes first is not part of the claim
    return out


def roots(env, name, n, cplx):
    out = []
    if cplx:
        for k in range(n // 2):
            re, im = env.real("%sr%d" % (name, k), -10, 10), env.real("%si%d" % (name, k), -10, 10)
            env.assume(env.gt(im, env.const(0.01)))
            out += [env.cplx(re, im), env.cplx(re, -im)]
    for k in range(len(out), n):
        out.append(env.real("%s%d" % (name, k), -10, 10))
    return out


def prod(env, xs):
    t = env.const(1)
    for x in xs:
        t = t * x
    return t


def num_den(env, f, s, par):
    """the substitution s -> N/D"""
    if f == "low_to_low":
        return s, par["dc"]
    if f == "low_to_high":
        return par["dc"], s
    if f == "low_to_band":
        return s * s + par["pc"] * par["pc"], s * par["pw"]
    if f == "low_to_stop":
        return s * par["pw"], s * s + par["pc"] * par["pc"]
    return 2 * par["sr"] * (s - 1), s + 1


def run(env, cfg):
    f, nz, np_, cplx = cfg["f"], cfg["nz"], cfg["np"], cfg.get("cplx")
    if cfg.get("int"):
        z, p = [], [env.int("p%d" % i, -9, 9) for i in range(np_)]
    else:
        z, p = roots(env, "z", nz, cplx), roots(env, "p", np_, cplx)
    k = env.real("k", -10, 10)
    names = {"low_to_low": ["dc"], "low_to_high": ["dc"], "low_to_band": ["pc", "pw"], "low_to_stop": ["pc", "pw"], "bilinear": ["sr"]}[f]
    par = {n: env.const(1) for n in names}
    if not (cfg.get("default") and f != "bilinear"):
        for n in names:
            par[n] = env.real(n, 0, 1000)
            env.assume(env.ge(par[n], env.const(2.0 ** -6)))
    args, kw = [env.pyfloat(par[n]) for n in names], {}
    if cfg.get("default") and f != "bilinear":
        args = []
    if cfg.get("kw"):
        args, kw = [], {n: env.pyfloat(par[n]) for n in names}
    for r in z + p:
        if f in ("low_to_high", "low_to_stop"):
            env.assume(env.not_(env.eq(env.abs(r) if not cplx else env.abs(r.re) + env.abs(r.im) if hasattr(r, "re") and hasattr(r, "im") else env.abs(r), 0)))
    if f == "bilinear":
        for r in z + p:
            if not cplx:
                env.assume(env.not_(env.eq(r, 2 * par["sr"])))
            else:
                env.assume(env.lt(r.re if hasattr(r, "re") else r, 0))
    dt = "c16" if cplx else "i8" if cfg.get("int") else "f8"
    if cfg.get("list"):
        az, ap = [env.pyfloat(v) for v in z], [env.pyfloat(v) for v in p]
    elif cfg.get("scalar"):
        az, ap = env.pyfloat(z[0]), env.pyfloat(p[0])
    else:
        az, ap = env.arr(z, dtype=dt if not cfg.get("int") else "f8"), env.arr(p, dtype=dt)
    if cfg.get("err"):
        raises(env, ["ValueError"], MOD, f, az, ap, env.pyfloat(k), *args)
        return
    if cfg.get("hist"):
        env.call(MOD, f, env.arr([env.const(-1.5)]), env.arr([env.const(-2.0), env.const(-3.0)]), 2.0, *args, **kw)
    keep = not (cfg.get("list") or cfg.get("scalar"))
    if keep:
        sz, sp = env.snapshot(az), env.snapshot(ap)
    r = env.call(MOD, f, az, ap, env.pyfloat(k), *args, **kw)
    if keep:
        env.unchanged(az, sz, "zeros left as they were")
        env.unchanged(ap, sp, "poles left as they were")
    env.check(isinstance(r, tuple) and len(r) == 3, "zeros, poles and gain")
    m = 2 if f in ("low_to_band", "low_to_stop") else 1
    z2 = env.vals(r[0], nz if f == "low_to_low" else nz * 2 + np_ - nz if f == "low_to_band" else m * np_)
    p2 = env.vals(r[1], m * np_)
    k2 = env.val(r[2])
    env.check(all(finite(env, v) for v in z2 + p2 + [k2]), "zeros, poles and gain are finite")
    s = env.real("s", -4, 4)
    N, D = num_den(env, f, s, par)
    left = k2 * prod(env, [s - v for v in z2]) * prod(env, [N - v * D for v in p])
    right = k * prod(env, [N - v * D for v in z]) * prod(env, [D] * (np_ - nz)) * prod(env, [s - v for v in p2])
    env.close(left, right, "transfer function")
