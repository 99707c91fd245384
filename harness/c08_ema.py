"""exponential_moving_average"""
from .common import SER, sparse, layout, raises
BOUNDS = ("n <= 7 (thorough 10) with every sample and alpha symbolic; n in {33,100,300} with alpha a constant and all samples "
          "symbolic; n=3000 with 8 symbolic samples; default alpha; views; two-call histories; |x| <= 1000")


def configs(tier):
    out = [dict(id="sym-n%d" % n, n=n, alpha="sym") for n in range(1, 8 if tier == "quick" else 11)]
    for n, al in ((33, 0.25), (64, 1), (100, 0.2), (300, 0.75)):
        out.append(dict(id="n%d-a%s" % (n, al), n=n, alpha=al, weight=20))
    out.append(dict(id="sparse-n3000", n=3000, alpha=0.5, sparse=True, weight=30))
    for n in (1, 2, 6, 40):
        out.append(dict(id="default-n%d" % n, n=n, alpha=0.2, default=True))
    for how in ("strided", "reversed", "tail"):
        out.append(dict(id="view-" + how, n=5, alpha="sym", how=how))
    out.append(dict(id="history", n=4, alpha="sym", hist=True))
    out.append(dict(id="error", n=3, err=True))
    for al in (0.0, -0.5, 1.5, 0, 2):
        out.append(dict(id="error-%s" % al, n=3, err=True, al=al))
    out.append(dict(id="alpha-one", n=5, alpha=1))
    return out


def expect(env, y, x, al):
    e = x[0]
    env.close(y[0], e, "ema starts at the first sample")
    for i in range(1, len(x)):
        e = al * x[i] + (1 - al) * e
        env.close(y[i], e, "ema[%d]" % i)


def run(env, cfg):
    n = cfg["n"]
    x = sparse(env, "x", n, (0, 1, 2, n // 3, n // 2, n - 3, n - 2, n - 1)) if cfg.get("sparse") else env.vec("x", n)
    a = layout(env, x, cfg.get("how", "plain"))
    if cfg.get("err"):
        if "al" in cfg:
            al = cfg["al"]
            raises(env, ["ValueError"], SER, "exponential_moving_average", a, al)
        else:
            al = env.real("alpha", -3, 3)
            bad = env.or_(env.le(al, 0), env.gt(al, 1))
            e, r = env.attempt(SER, "exponential_moving_average", a, env.pyfloat(al))
            env.iff(env.true if e == "ValueError" else env.false, bad, "ValueError exactly for alpha outside (0, 1]")
            if e is None:
                expect(env, env.vals(r, n), x, al)
            else:
                env.check(e == "ValueError", "unexpected %s" % e)
        return
    if cfg["alpha"] == "sym":
        al = env.real("alpha", 0, 1)
        env.assume(env.gt(al, 0))
        alp = env.pyfloat(al)
    else:
        al = env.const(cfg["alpha"])
        alp = cfg["alpha"]
    if cfg.get("hist"):
        z = env.vec("z", n)
        be = env.real("beta", 0, 1)
        env.assume(env.gt(be, 0))
        env.call(SER, "exponential_moving_average", env.arr(z), env.pyfloat(be))
    s = env.snapshot(a)
    r = env.call(SER, "exponential_moving_average", a) if cfg.get("default") else \
        env.call(SER, "exponential_moving_average", a, alp)
    env.unchanged(a, s, "input left as it was")
    env.not_alias(r, a, "result is a new array")
    expect(env, env.vals(r, n), x, al)
