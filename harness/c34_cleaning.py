"""detection followed by replacement: what a detector returns feeds every replacement method"""
import math
from . import c17_acceleration as c17, c18_phasespace as c18, c20_correlation as c20, c21_spherical as c21, c22_kde3d as c22
from .c03_linear import expected as linear
from .common import REP
BUDGET = {"quick": 60, "thorough": 600}
BOUNDS = ("acceleration (both tags, n=4; n=40 with 2 symbolic samples), phase-space (n in {12,60}), correlation (n in {3,12}), spherical (n=12) and three-dimensional kernel "
          "(n in {6,9}) detection, each with last-valid, mean, median, linear, moving-average, exponential and weighted replacement (values checked) and Kalman, cubic and polynomial replacement (locality checked); "
          "symbolic samples as in the detector's own check; the result used twice; |x| <= 1000")
ASSUMES = ["what the detector returns is taken as the set of spikes; whether it is the right set is decided by C17, C18, C20, C21, C22"]
DET = {"acc": c17, "ps": c18, "cor": c20, "sph": c21, "kde": c22}
REPL = ("last_valid_data", "mean_value", "median_value", "linear_interpolation", "simple_moving_average", "exponential_moving_average",
        "weighted_moving_average", "kalman_filter", "cubic_12points_polynomial", "polynomial_replacement")
ROUND = ("linear_interpolation", "cubic_12points_polynomial", "polynomial_replacement")


def configs(tier):
    out = []
    kd = next(c for c in c22.configs("quick") if c["id"].startswith("det-n9-g5"))
    k6 = next(c for c in c22.configs("quick") if c["id"].startswith("det-n6-g4"))
    sph = [c for c in c21.configs("quick") if c["id"] in ("n12-mid70", "n12-run12", "n12-ends-9")]
    for f in REPL:
        for tag in (1, 2):
            out.append(dict(id="acc%d-%s" % (tag, f), det="acc", tag=tag, n=4, par=[], f=f))
        out.append(dict(id="acc-n40-" + f, det="acc", tag=1, n=40, par=[], sym=[20, 21], f=f))
        out.append(dict(id="ps-n12-" + f, det="ps", what="t", n=12, sym=[6, 7], cut=1, f=f))
        out.append(dict(id="ps-n60-" + f, det="ps", what="t", n=60, sym=[0, 30, 58], cut=1, f=f))
        for k, s in enumerate(([[6], [6], [6]], [[2], [6, 7], [0]])):
            out.append(dict(id="cor-n12-%d-%s" % (k, f), det="cor", what="d", n=12, sym=s, real=True, cut=1, comp=k, f=f))
        for c in sph:
            out.append(dict(c, id="sph-%s-%s" % (c["id"], f), det="sph", f=f))
        for c in (kd, k6):
            out.append(dict(c, id="kde-%s-%s" % (c["id"], f), det="kde", f=f))
    for c in out:
        c["pipe"] = True
    return out


def trailing(env, x, w):
    n = len(x)
    return [env.sum(x[max(0, i - w + 1):i + 1]) / (i + 1 - max(0, i - w + 1)) for i in range(n)]


def run(env, cfg):
    f, n = cfg["f"], cfg["n"]
    xs, arrs, spikes, got = DET[cfg["det"]].run(env, cfg)
    k = cfg.get("comp", 0)
    x, a = xs[k], arrs[k]
    sp = [i for i in range(n) if (env.follow if cfg.get("cut") else env.decide)(got[i])]
    args = []
    if f == "last_valid_data" and 0 in sp:
        env.assume(env.false)
    if f in ROUND and len(sp) >= n - 1:
        env.assume(env.false)
    if f == "simple_moving_average":
        args = [2]
        e = trailing(env, x, 2)
    elif f == "exponential_moving_average":
        args = [0.25]
        e = [x[0]]
        for v in x[1:]:
            e.append((e[-1] * 3 + v) / 4)
    elif f == "weighted_moving_average":
        args = [2]
        if any(i >= n - 2 for i in sp):
            env.assume(env.false)
        e = [(x[i] + 2 * x[i + 1]) / 3 for i in range(n - 2)] + [None] * 2
    elif f == "mean_value":
        e = [env.sum(x) / n] * n
    elif f == "median_value":
        e = [env.median(x)] * n
    elif f == "kalman_filter":
        args = [env.arr([env.const(v)], shape=(1, 1)) for v in (2.0, 1.0, 0.5, 1.5)]
        e = None
    elif f in ROUND[1:]:
        e = None
    elif f == "linear_interpolation":
        e = [env.round(v, 4) for v in linear(env, x, sp)]
    else:
        e = list(x)
        for i in sp:
            e[i] = e[i - 1]
    s = env.snapshot(a)
    for again in (False, True):
        r = env.call(REP, f, a, spikes, *args)
        env.unchanged(a, s, "velocities left as they were")
        y = env.vals(r, n)
        for i in range(n):
            if i in sp and e is None:
                env.check(not env.isnan(y[i]), "spike %d gets a number" % i)
            elif i in sp:
                env.close(y[i], e[i], "spike %d is replaced%s" % (i, " again" if again else ""))
            else:
                env.close(y[i], env.round(x[i], 4) if f in ROUND else x[i], "sample %d is kept" % i)
        g2 = env.members(spikes, n, "spikes after use")
        for i in range(n):
            env.iff(g2[i], env.true if i in sp else env.false, "the detected set is left as it was")
