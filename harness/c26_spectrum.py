"""power_spectra"""
import math
from fractions import Fraction
from .common import layout, sparse, raises
MOD, F = "proadv.statistics.signal.spectrum", "power_spectra"
BUDGET = {"quick": 90, "thorough": 600}
BOUNDS = ("blocks 3..8 (thorough 12) on n <= 20 fully symbolic samples, blocks {16,32} on n <= 80 with 6 symbolic samples; overlaps "
          "0,10,12.5,25,29,33,50,57,66,75,90,99 percent; one- and two-sided; sampling frequency symbolic; defaults on n=2048,2100,3090 (selected frequencies); too short "
          "input; strided data; two-call histories; |x| <= 1000; the library function welch is modelled by its definition")


def configs(tier):
    out = []
    T = tier != "quick"
    for block in (3, 4, 5, 8) if not T else (3, 4, 5, 6, 7, 8, 11, 12):
        for n in sorted({block, block + 1, 2 * block, 2 * block + 3, 20}):
            if n < block or n > 20:
                continue
            for ov in (0, 50) if block > 4 and not T else (0, 10, 33, 50, 75):
                for one in (True, False):
                    out.append(dict(id="b%d-n%d-o%d-%d" % (block, n, ov, one), n=n, block=block, ov=ov, one=one, weight=block * n / 40))
    for block in (16, 32):
        for n in (block, 80):
            for ov in (25, 66, 90):
                out.append(dict(id="b%d-n%d-o%d" % (block, n, ov), n=n, block=block, ov=ov, one=ov != 66, sym=[0, 5, 6, block // 2, n // 2, n - 1], weight=3))
    for block, ov in ((100, 29), (7, 12.5), (6, 99), (100, 57)):
        out.append(dict(id="b%d-share%g" % (block, ov), n=block + 9, block=block, ov=ov, one=True, sym=[0, 2, block - 1, block + 1], weight=2, **(dict(pick=[0, 1, 7, 25, 50]) if block > 9 else {})))
    out.append(dict(id="kw", n=9, block=4, ov=25, one=False, kw=True))
    out.append(dict(id="no-side", n=9, block=4, ov=25, drop=1))
    out.append(dict(id="default-overlap", n=14, block=6, drop=2, kw=True))
    out.append(dict(id="default-overlap-b100", n=156, block=100, drop=2, kw=True, sym=[1, 49, 55, 120], pick=[0, 1, 3, 25, 50], weight=2))
    out.append(dict(id="default-overlap-pos", n=156, block=100, drop=1, ov=50, sym=[40, 55], pick=[0, 2, 50], weight=2))
    out.append(dict(id="defaults-two", n=3090, drop=3, sym=[1050], pick=[0, 1, 700], weight=0))
    out.append(dict(id="only-overlap", n=2048, ov=75, drop=1, kw=True, noblock=True, sym=[7], pick=[0, 1, 3, 512, 1023, 1024], weight=0))
    out.append(dict(id="defaults", n=2100, drop=3, sym=[1], pick=[0, 1, 2, 700, 1024], weight=0))
    for n, block in ((3, 4), (7, 8), (15, 16)):
        out.append(dict(id="short-n%d" % n, n=n, block=block, ov=50, one=True, err=True))
    out.append(dict(id="short-default", n=2047, drop=3, err=True, sym=[0]))
    for how in ("strided", "reversed"):
        out.append(dict(id=how, n=9, block=4, ov=50, one=True, how=how))
    out.append(dict(id="list", n=9, block=4, ov=50, one=True, list=True))
    out.append(dict(id="hist", n=9, block=4, ov=50, one=True, hist=True))
    return out


def run(env, cfg):
    n = cfg["n"]
    x = sparse(env, "x", n, cfg["sym"]) if "sym" in cfg else env.vec("x", n)
    fs = env.real("fs", 2.0 ** -6, 10000)
    a = [env.pyfloat(v) for v in x] if cfg.get("list") else layout(env, x, cfg.get("how", "plain"))
    par = dict(overlap=cfg.get("ov", 50), block=cfg.get("block", 2048), onesided=cfg.get("one", True))
    keys = ["overlap", "block", "onesided"]
    drop = cfg.get("drop", 0)
    args, kw = [par[k] for k in keys[:3 - drop]], {}
    if cfg.get("kw"):
        args, kw = [], {k: par[k] for k in (keys[:1] if cfg.get("noblock") else keys if not drop else ["block"])}
    if cfg.get("err"):
        raises(env, ["ValueError"], MOD, F, a, env.pyfloat(fs), *args)
        return
    if cfg.get("hist"):
        env.call(MOD, F, env.arr(env.vec("z", 7)), env.pyfloat(fs), 0, 3, False)
    snap = None if cfg.get("list") else env.snapshot(a)
    r = env.call(MOD, F, a, env.pyfloat(fs), *args, **kw)
    if snap is not None:
        env.unchanged(a, snap, "input left as it was")
    env.check(isinstance(r, tuple) and len(r) == 2, "frequencies and densities")
    B, one = par["block"], par["onesided"]
    nov = int(B * par["overlap"] / 100)
    nf = B // 2 + 1 if one else B
    fr, de = env.vals(r[0], nf), env.vals(r[1], nf)
    win = [0.5 - 0.5 * math.cos(2 * math.pi * i / (B - 1)) for i in range(B)]
    if B >= 256:            # keep the constants dyadic
        con = lambda v: env.const(Fraction(int(round(v * 2 ** 60)), 2 ** 60))
    else:
        con = lambda v: env.const(v if abs(v) > 1e-15 else 0)
    power = math.fsum(w * w for w in win)
    step = B - nov
    segs = []
    for s in range(0, n - B + 1, step):
        seg = x[s:s + B]
        m = env.sum(seg) / B
        segs.append([(v - m) * con(w) for v, w in zip(seg, win)])
    for f in cfg.get("pick", range(nf)):
        k = f if one or f < (B + 1) // 2 else f - B
        env.close(fr[f], fs * k / B, "frequency %d" % f)
        p = env.const(0)
        for seg in segs:
            re = env.sum([v * con(math.cos(2 * math.pi * (f * t % B) / B)) for t, v in enumerate(seg)])
            im = env.sum([v * con(math.sin(2 * math.pi * (f * t % B) / B)) for t, v in enumerate(seg)])
            p = p + re * re + im * im
        p = p / (fs * con(power) * len(segs))
        if one and f != 0 and not (B % 2 == 0 and f == nf - 1):
            p = p * 2
        env.close(de[f], p, "density %d" % f)
