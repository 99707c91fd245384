"""synthetic_noise: data with artificial spikes, for every outcome of the random source"""
from .common import layout, sparse
MOD, F = "proadv.statistics.signal.synthetic", "synthetic_noise"
BOUNDS = ("n <= 4 (thorough 5) with every sample, the normal draws, the percentage and every index draw (one repeated draw allowed, thorough two) "
          "symbolic; n in {10,40,300,3000} with given index draws (ordered, reversed, repeated), 3 symbolic samples and 4 symbolic normal draws; "
          "integer and strided data; two-call histories; 0 <= percent <= 100, |x| <= 1000")


def configs(tier):
    out = []
    for n in range(1, 5 if tier == "quick" else 6):
        for c in range(n + 1):
            if c <= 3 or tier != "quick":
                out.append(dict(id="n%d-c%d" % (n, c), n=n, count=c, extra=0 if n * c > 12 else 1, weight=n))
    for n in (10, 40, 300, 3000):
        for c in sorted({1, 2, 3, n // 10 * 2, n // 2, n}):
            if c > 60:
                continue
            for d in ("up", "down", "mixed", "repeat"):
                out.append(dict(id="n%d-c%d-%s" % (n, c, d), n=n, count=c, draws=d, sym=[0, n // 2, n - 1], weight=1))
    out.append(dict(id="n3-c2-twice", n=3, count=2, extra=2))
    out.append(dict(id="int", n=3, count=2, extra=0, int=True))
    for how in ("strided", "reversed"):
        out.append(dict(id=how, n=3, count=2, extra=0, how=how))
    out.append(dict(id="hist", n=2, count=1, extra=0, hist=True))
    for p in (0, 20, 25, 50, 100):
        out.append(dict(id="percent%d" % p, n=20, count=20 * p // 100, percent=p, draws="mixed", sym=[3, 4]))
    for c in out:
        c["base"] = {"percent": 100 * (c["count"] + 0.4) / c["n"]}
    return out


class Source:
    """the random source: every index draw and every normal draw is an input"""

    def __init__(self, env, cfg, tag=""):
        self.env, self.cfg, self.tag, self.seen, self.repeats, self.calls = env, cfg, tag, [], 0, 0

    def randint(self, low, high=None, size=None):
        env, n = self.env, self.cfg["n"]
        env.check((low, high) == (0, n) or (low, high) == (n, None), "indices drawn from the whole series")
        if size is not None:
            raise env.unsupported("index draws in bulk")
        self.calls += 1
        how = self.cfg.get("draws")
        if how:
            k = len(self.seen)
            if how == "repeat" and self.seen and self.repeats <= k:
                self.repeats += 2
                return self.seen[(self.repeats // 2 * 5) % len(self.seen)]
            v = {"up": k, "down": n - 1 - k}.get(how, (k * 7 + 3) % n)
        else:
            left = [i for i in range(n) if i not in self.seen] if self.repeats >= self.cfg["extra"] else list(range(n))
            d = env.int("d%s%d" % (self.tag, self.calls), 0, n - 1)
            v = next((i for i in left[:-1] if env.decide(env.eq(d, i))), left[-1])
            env.assume(env.eq(d, v))
        if v in self.seen:
            self.repeats += 1
        else:
            self.seen.append(v)
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        env, n = self.env, self.cfg["n"]
        env.check(float(loc) == 0 and float(scale) == 0.05, "noise of mean 0 and deviation 0.05")
        env.check(size == n or size == (n,), "one noise value per sample")
        self.r = [env.real("r%s%d" % (self.tag, i), -1, 1) if i < 4 else env.const(((i * 29) % 64 - 31) / 256) for i in range(n)]
        return env.arr(self.r)


def run(env, cfg):
    n, c = cfg["n"], cfg["count"]
    if cfg.get("int"):
        x = [env.int("x%d" % i, -1000, 1000) for i in range(n)]
        a = env.arr(x, dtype="i8")
    else:
        x = sparse(env, "x", n, cfg["sym"]) if "sym" in cfg else env.vec("x", n)
        a = layout(env, x, cfg.get("how", "plain"))
    if "percent" in cfg:
        p = env.const(cfg["percent"])
        arg = cfg["percent"]
    else:
        p = env.real("percent", 0, 100)
        # inside the bucket of percentages that ask for c samples
        if c == n:
            p = env.const(100)
        else:
            env.assume(env.ge(p, env.const(100 * c / n + (0.001 if c else 0))))
            env.assume(env.le(p, env.const(100 * (c + 1) / n - 0.001)))
        arg = env.pyfloat(p)
    if cfg.get("hist"):
        env.set_random(Source(env, cfg, "h"))
        env.call(MOD, F, env.arr(env.vec("z", n)), arg)
    src = Source(env, cfg)
    env.set_random(src)
    s = env.snapshot(a)
    y = env.vals(env.call(MOD, F, a, arg), n)
    env.unchanged(a, s, "input left as it was")
    env.check(len(src.seen) == c, "as many samples as the percentage asks for")
    m = env.sum(x) / n
    at = sorted(src.seen)
    for i in range(n):
        e = x[i]
        if i in at:
            k = at.index(i)
            v = (env.abs(src.r[k]) + p) * m
            e = e + v if k % 2 == 0 else e - v
        env.close(y[i], e, "sample %d" % i)
