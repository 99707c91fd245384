"""phasespace_thresholding_premodification"""
import math
from .common import layout, sparse
MOD, F = "proadv.filtration.detection.phasespace", "phasespace_thresholding_premodification"
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("2 <= n <= 4 (thorough 5) with every sample symbolic; n in {9,24,120} with 2-3 symbolic samples on fixed data; factors c1, c2 "
          "symbolic on n <= 3 and on the long inputs, defaults, positional and keyword; views; two-call histories; first sample not "
          "removable; |x| <= 1000")


def configs(tier):
    out = []
    for n in range(2, 5 if tier == "quick" else 6):
        out.append(dict(id="n%d" % n, n=n, par=[]))
    for par in (["c1"], ["c2"], ["c1", "c2"]):
        out.append(dict(id="n3-kw-" + "".join(par), n=3, par=par, kw=True))
    out.append(dict(id="n3-pos", n=3, par=["c1", "c2"]))
    for n in (9, 24, 120):
        for k, pos in enumerate(([n // 2], [n // 2, n // 2 + 1], [1, n - 1], [n - 2, n - 1, 3])):
            if n < 100 or k == 0 or tier != "quick":
                out.append(dict(id="n%d-%d" % (n, k), n=n, par=[], sym=pos))
        if n > 100 and tier == "quick":
            continue
        out.append(dict(id="n%d-par" % n, n=n, par=["c1", "c2"], sym=[n // 2]))
        out.append(dict(id="n%d-shift" % n, n=n, par=[], sym=[n // 2, 4], shift=6.5))
    out.append(dict(id="hist", n=9, par=[], sym=[4], hist=True))
    for how in ("strided", "reversed", "tail"):
        out.append(dict(id="view-" + how, n=9, par=[], sym=[4, 5], how=how))
    return out


def run(env, cfg):
    n = cfg["n"]
    x = sparse(env, "x", n, cfg["sym"]) if "sym" in cfg else env.vec("x", n)
    if "shift" in cfg:
        x = [v + env.const(cfg["shift"]) for v in x]
    c = dict(c1=env.const(1.5), c2=env.const(1.35))
    for p in cfg["par"]:
        c[p] = env.real(p, 0, 100)
        env.assume(env.gt(c[p], env.const(0.125)))
    args, kw = [env.pyfloat(c[p]) for p in cfg["par"]], {}
    if cfg.get("kw"):
        args, kw = [], {p: env.pyfloat(c[p]) for p in cfg["par"]}
    med = env.median(x)
    th = env.median([env.abs(v - med) for v in x])
    t1, t2 = c["c1"] * th, c["c2"] * th * env.const(math.sqrt(2 * math.log(n)))
    env.assume(env.not_(env.gt(env.abs(x[0]), t2)))
    a = layout(env, x, cfg.get("how", "plain"))
    if cfg.get("hist"):
        env.call(MOD, F, env.arr([env.const(v) for v in (1., 2., 30., 4., 1., -50., 2.)]))
    r = env.call(MOD, F, a, *args, **kw)
    env.check(isinstance(r, tuple) and len(r) == 2, "a pair")
    y = env.vals(r[0], n)
    got = env.members(r[1], n, "unremovable indices")
    e = []
    for i in range(n):
        env.iff(got[i], env.and_(env.not_(env.gt(x[i], t1)), env.not_(env.lt(x[i], -t1))), "sample %d is unremovable" % i)
        if i and env.decide(env.or_(env.gt(x[i], t2), env.lt(x[i], -t2))):
            e.append(e[-1])
        else:
            e.append(x[i])
        env.close(y[i], e[i], "sample %d" % i)
