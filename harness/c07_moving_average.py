"""moving_average: trailing window mean with a growing window at the start"""
from .common import SER, sparse, layout, raises
BOUNDS = ("every (n, window) with n <= 7 (thorough 11), all values symbolic; n in {25,33,64,130,300} fully symbolic and "
          "n in {420,700,1100,1300,5000} with 8 symbolic samples for selected windows; integer dtype, views, default window, two-call "
          "histories, and the error cases; |x| <= 1000")


def configs(tier):
    out = []
    N = 7 if tier == "quick" else 11
    for n in range(1, N + 1):
        for w in range(1, n + 1):
            out.append(dict(id="n%d-w%d" % (n, w), n=n, w=w))
    for n, w in ((33, 20), (64, 1), (64, 64), (130, 64), (300, 20)) + (() if tier == "quick" else ((300, 299), (500, 100), (1100, 50))):
        out.append(dict(id="n%d-w%d" % (n, w), n=n, w=w, weight=50))
    for n, w in ((1100, 50), (5000, 33), (700, 150), (1300, 1024), (420, 400)):
        out.append(dict(id="sparse-n%d-w%d" % (n, w), n=n, w=w, sparse=True, weight=40))
    for n in (20, 21, 25):
        out.append(dict(id="default-n%d" % n, n=n, w=20, default=True))
    for how in ("strided", "reversed", "tail"):
        out.append(dict(id="view-" + how, n=6, w=3, how=how))
    for n, w in ((5, 2), (6, 6), (7, 3)):
        out.append(dict(id="int-n%d-w%d" % (n, w), n=n, w=w, int=True))
    for n, w in ((6, 3), (5, 1)):
        out.append(dict(id="history-n%d-w%d" % (n, w), n=n, w=w, hist=True))
    for n, w in ((3, 0), (3, -1), (4, 5), (1, 2), (20, 21), (4, -7)):
        out.append(dict(id="error-n%d-w%d" % (n, w), n=n, w=w, err=True))
    out.append(dict(id="error-2d", two=True))
    out.append(dict(id="error-default-n19", n=19, w=None, err=True))
    out.append(dict(id="empty", empty=True))
    return out


def expect(env, y, x, w):
    n = len(x)
    for i in range(n):
        lo = max(0, i - w + 1)
        env.close(y[i], env.sum(x[lo:i + 1]) / (i + 1 - lo), "ma[%d] is the mean of the last %d samples" % (i, i + 1 - lo))


def run(env, cfg):
    if cfg.get("empty"):
        r = env.call(SER, "moving_average", env.arr([]), 3)
        env.check(env.shape(r) == (0,), "empty in, empty out")
        return
    if cfg.get("two"):
        raises(env, ["ValueError"], SER, "moving_average", env.arr(env.vec("x", 6), shape=(2, 3)), 2)
        return
    n, w = cfg["n"], cfg["w"]
    if cfg.get("err"):
        a = env.arr(env.vec("x", n))
        if w is None:
            raises(env, ["ValueError"], SER, "moving_average", a)
        else:
            raises(env, ["ValueError"], SER, "moving_average", a, w)
        return
    if cfg.get("sparse"):
        x = sparse(env, "x", n, (0, 1, w - 1, w, w + 1, n // 2, n - 2, n - 1))
    elif cfg.get("int"):
        x = [env.int("x%d" % i, -1000, 1000) for i in range(n)]
    else:
        x = env.vec("x", n)
    a = env.arr(x, dtype="i8") if cfg.get("int") else layout(env, x, cfg.get("how", "plain"))
    if cfg.get("hist"):
        z = env.vec("z", n)
        env.call(SER, "moving_average", env.arr(z), w)
    s = env.snapshot(a)
    r = env.call(SER, "moving_average", a) if cfg.get("default") else env.call(SER, "moving_average", a, w)
    env.unchanged(a, s, "input left as it was")
    env.not_alias(r, a, "result is a new array")
    expect(env, env.vals(r, n), x, w)
    if cfg.get("hist"):
        r2 = env.call(SER, "moving_average", env.arr(z), w)
        expect(env, env.vals(r2, n), z, w)
